"""Executes one shard of a property's cases against the real code and writes one JSON line per recorded event.

usage: driver.py PROP SHARD NSHARDS SEED TIER OUT PKGDIR [CASEFILE]
"""
import json
import os
import sys
import traceback


def main():
    prop, shard, nsh, seed, tier, out, pkg = sys.argv[1:8]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.path.insert(0, pkg)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    import treecorr
    assert os.path.dirname(os.path.dirname(os.path.abspath(treecorr.__file__))) == os.path.abspath(pkg), treecorr.__file__
    import importlib
    mod = importlib.import_module('props.' + prop.lower())
    skip = int(os.environ.get('VT_SKIP', '0'))
    if len(sys.argv) > 8:
        with open(sys.argv[8]) as f:
            cases = [json.load(f)]
    else:
        cases = [c for i, c in enumerate(mod.cases(int(seed), tier)) if i % int(nsh) == int(shard)]
    scratch = os.path.join(os.path.dirname(out), 'scratch-%s' % shard)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    with open(out, 'a') as f:
        for i, case in enumerate(cases):
            if i < skip:
                continue
            with open(out + '.cur', 'w') as g:
                json.dump([i, case], g)
            try:
                recs = mod.run(case)
            except Exception as e:   # the code under test raised where the property says it must work
                recs = [dict(getattr(mod, 'ERR', {}), err='%s: %s' % (type(e).__name__, str(e)[:300]),
                             tb=traceback.format_exc()[-1500:])]
            for r in recs:
                r.setdefault('err', '')
                r['case'] = i
                f.write(json.dumps(r) + '\n')
            f.flush()
    with open(out + '.done', 'w') as g:
        g.write(str(len(cases)))


if __name__ == '__main__':
    main()
