#!/opt/venv/bin/python
"""check.py PROP [--tier quick|thorough] [--replay FILE] [--keep]

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
Anything else: the machinery failed.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vt import build, tlc   # noqa: E402

NSHARD = 8


def drive(prop, shard, nsh, seed, tier, work, pkg, case=None, timeout=800):
    """Run one driver process; returns (trace file, list of cases that killed the process)."""
    out = os.path.join(work, 'trace-%s.ndjson' % shard)
    open(out, 'w').close()
    crashes = []
    skip = 0
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('OMP_'):
            del env[k]
    env.update(OMP_WAIT_POLICY='passive', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', HOME=work,
               PYTHONHASHSEED='0', MPLBACKEND='Agg', TMPDIR=work)
    t0 = time.time()
    while True:
        env['VT_SKIP'] = str(skip)
        cmd = [build.PY, os.path.join(VERIF, 'vt', 'driver.py'), prop, str(shard), str(nsh), str(seed), tier, out, pkg]
        if case:
            cmd.append(case)
        left = timeout - (time.time() - t0)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        try:
            so, se = p.communicate(timeout=max(left, 5))
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            hung = True
        if os.path.exists(out + '.done'):
            return out, crashes
        if hung:
            raise RuntimeError('driver %s shard %s timed out' % (prop, shard))
        if p.returncode < 0 and os.path.exists(out + '.cur'):
            i, c = json.load(open(out + '.cur'))
            rec = dict(err='process killed by signal %d' % -p.returncode, case=i)
            mod = importlib.import_module('props.' + prop.lower())
            with open(out, 'a') as f:
                f.write(json.dumps(dict(getattr(mod, 'ERR', {}), **rec)) + '\n')
            crashes.append(c)
            skip = i + 1
            if len(crashes) > 20:
                raise RuntimeError('too many crashes')
            continue
        raise RuntimeError('driver failed (%d):\n%s\n%s' % (p.returncode, so[-2000:], se[-4000:]))


def load_findings():
    """known-findings.txt: one line per finding, 'known: property=<id> key=<key> <text>' or 'fixed: ...'."""
    out = collections.defaultdict(dict)
    fn = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith('known: '):
                parts = line.split(None, 3)
                out[parts[1].split('=', 1)[1]][parts[2].split('=', 1)[1]] = parts[3].strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-models', action='store_true')
    a = ap.parse_args()
    tier = a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module('props.' + a.prop.lower())
    pid = mod.ID
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        rc = _run(a, mod, pid, tier, seed, t0, work)
    finally:
        if a.keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def _run(a, mod, pid, tier, seed, t0, work):
    try:
        pkg = build.make_package(os.path.join(work, 'pkg'))
    except build.BuildError as e:
        print('BUILD-FAILED', e)
        return 2
    build.build_java()
    tr = mod.TRACE[tier] if isinstance(mod.TRACE, dict) else mod.TRACE
    violations = []       # (key, text, replay payload)
    states = generated = 0
    model_info = []
    pool = ThreadPoolExecutor(NSHARD + 4)

    # 1. the design: exhaustive model checking of the specification itself
    mfut = []
    if not a.replay and not a.no_models:
        for m in mod.MODELS:
            if tier == 'quick' and m.get('thorough_only'):
                continue
            mfut.append((m, pool.submit(tlc.run, m['module'], m['cfg'], workers=m.get('workers', 2),
                                        timeout=m.get('timeout', 600), extra=['-coverage', '1'],
                                        heap=m.get('heap', '3g'))))

    # 2. the code: drive it, record, and let TLC decide every recorded event against the specification
    def shard_job(sh, nsh, case=None):
        out, crashes = drive(pid, sh, nsh, seed, tier, work, pkg, case,
                             timeout=getattr(mod, 'DRIVE_TIMEOUT', 780 if tier == 'quick' else 6000))
        n = sum(1 for _ in open(out))
        if n == 0:
            return out, None
        r = tlc.run(tr, tr + '.cfg', env=dict(TRACE=out), timeout=780 if tier == 'quick' else 6000,
                    heap=getattr(mod, 'HEAP', '2g'), trace=True)
        if not r.ok:
            raise tlc.TLCError('trace spec %s not accepted:\n%s' % (tr, r.out[-3000:]))
        if not r.stuck and r.depth - 1 != n:
            raise tlc.TLCError('trace spec %s consumed %d of %d records' % (tr, r.depth - 1, n))
        return out, r

    case_file = None
    if a.replay:
        rp = json.load(open(a.replay))
        case_file = os.path.join(work, 'case.json')
        json.dump(rp['case'], open(case_file, 'w'))
        futs = [pool.submit(shard_job, 0, 1, case_file)]
        nsh = 1
    else:
        nsh = getattr(mod, 'NSHARD', NSHARD)
        futs = [pool.submit(shard_job, s, nsh) for s in range(nsh)]
    traces = 0
    nrec = 0
    stats = collections.Counter()
    samples = []
    distinct = set()
    cases_all = None if a.replay else list(mod.cases(seed, tier))
    for s, f in enumerate(futs):
        out, r = f.result()
        if r is None:
            continue
        recs = [json.loads(x) for x in open(out)]
        nrec += len(recs)
        traces += len({x['case'] for x in recs})
        states += r.states
        generated += r.generated
        stats.update(r.stats)
        for x in recs:
            stats['recorded:' + str(x.get('kind', x.get('ev', '')))] += 1
            distinct.add(hashlib.md5(json.dumps(x, sort_keys=True).encode()).hexdigest())
        if not samples and recs:
            samples = [_clip(recs[0]), _clip(recs[len(recs) // 2])]
        seen = collections.Counter()
        for ln, clauses in r.fails:
            x = recs[ln - 1]
            c = json.load(open(case_file)) if a.replay else cases_all[x['case'] * nsh + s]
            key = mod.key(c, x, clauses) if hasattr(mod, 'key') else ''
            seen[clauses] += 1
            if seen[clauses] > 200 and not key:
                continue
            violations.append((key, clauses, dict(property=pid, case=c, record=x, failing=clauses, seed=seed,
                                                  tier=tier)))
    for m, f in mfut:
        r = f.result()
        states += r.states
        generated += r.generated
        want = m.get('expect', 'ok')
        dead = [x for x in m.get('actions', []) if not r.actions.get(x)]
        model_info.append(dict(module=m['module'], cfg=m['cfg'], states=r.states, generated=r.generated, depth=r.depth,
                               verdict='ok' if r.ok else r.violation,
                               actions={k: v for k, v in sorted(r.actions.items())}))
        if r.ok and want == 'ok' and dead:
            raise tlc.TLCError('vacuous model %s/%s: actions never taken: %s' % (m['module'], m['cfg'], dead))
        if r.ok != (want == 'ok'):
            raise tlc.TLCError('model %s/%s: expected %s, TLC says %s' % (m['module'], m['cfg'], want,
                                                                         r.violation or 'ok'))
    pool.shutdown()

    # 3. verdict
    known = load_findings().get(pid, {})
    reported = []
    known_hit = collections.OrderedDict()
    for key, clauses, payload in violations:
        if key and key in known:
            known_hit[key] = known[key]
        else:
            reported.append((clauses, payload))
    if not a.replay:
        for k in known:
            if k not in known_hit and getattr(mod, 'KNOWN_ALWAYS', True):
                # listed but not reproduced on this run (seed or tier did not reach it)
                known_hit.setdefault(k, None)
    for k, txt in known_hit.items():
        if txt:
            print('KNOWN-FINDING: property=%s key=%s %s' % (pid, k, txt))
    if not a.replay:
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
                  coverage=dict(states=states, transitions=max(generated - len(mfut) - nsh, 0),
                                traces_validated_against_impl=traces,
                                events_validated=nrec, distinct_events=len(distinct),
                                models=model_info, clause_counts=dict(stats), samples=samples or ['none'],
                                rule=getattr(mod, 'RULE', '')),
                  assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 1),
                  violations=len(reported))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d traces, %d events, %d states; %d violation(s); %.1fs' %
          (pid, tier, traces, nrec, states, len(reported), time.time() - t0))
    if reported:
        for cl, k in collections.Counter(c for c, _ in reported).most_common(12):
            print('  %5d x %s' % (k, cl))
        d = os.path.join(VERIF, 'replays', pid)
        os.makedirs(d, exist_ok=True)
        # a few of each kind
        cnt = collections.Counter()
        few = []
        for x in reported:
            cnt[x[0]] += 1
            if cnt[x[0]] <= 2:
                few.append(x)
        for clauses, payload in few[:10]:
            name = hashlib.md5(json.dumps(payload, sort_keys=True).encode()).hexdigest()[:10] + '.json'
            path = a.replay or os.path.join(d, name)
            if not a.replay:
                with open(path, 'w') as f:
                    json.dump(payload, f)
            print('  failing clauses: %s  %s' % (clauses, payload['record'].get('err', '')))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def _clip(r):
    s = json.dumps(r)
    return r if len(s) < 1500 else s[:1500] + '...'


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(3)
