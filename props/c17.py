"""C17: sample_pairs, against spec/SampleOut."""
import numpy as np

from vt import gen
from vt.gen import S, SL
from . import c01
from .pair_common import bin_record, UNITS

ID = 'C17'
TRACE = 'SampleTrace'
ERR = dict(err='')
ACT = ['TakeAll', 'OneByOne', 'Bulk']
MODELS = [dict(module='Sampler', cfg='Sampler.cfg', workers=4, timeout=600, actions=ACT),
          dict(module='Sampler', cfg='Sampler_bad.cfg', expect='violation'),
          dict(module='Sampler', cfg='Sampler_bad2.cfg', expect='violation'),
          dict(module='Sampler', cfg='Sampler_deep.cfg', workers=4, timeout=3000, thorough_only=True)]
RULE = ('random catalogs (duplicates, weights) x coordinates x metric x binning x range (aligned with the bins or not) x n x tree '
        'options, before and after other uses of the same catalogs; some repeated many times to see every pair selected')


def cases(seed, tier):
    rng = np.random.RandomState(1700 + seed)
    out = []
    for i in range(900 if tier == 'quick' else 12000):
        c = c01.one(rng, ['NN', 'NN', 'KK', 'NG', 'GG'])
        c['s'] = int(rng.randint(2**31))
        c['fair'] = i % 10 == 0
        out.append(c)
    return out


def run(case):
    import treecorr as tc
    r = np.random.RandomState(case['s'])
    kw = dict(case['kw'])
    kw.pop('nbins', None), kw.pop('bin_size', None), kw.pop('min_sep', None), kw.pop('max_sep', None)
    b0 = bin_record(case['kw'])
    unit = UNITS[kw.get('sep_units', '')]
    lo, hi = float(b0['min']) / unit, float(b0['max']) / unit
    bt = kw['bin_type']
    nb = b0['nbins']
    kw['nbins'] = nb
    if bt != 'TwoD':
        kw['min_sep'] = lo
    kw['max_sep'] = hi
    bs = float(b0['bs'])
    slop = 0.
    if 'brute' not in kw and r.rand() < 0.3:
        slop = float(r.choice([0.3, 1.0, 0.05]))
        slop = min(slop, 0.3 / bs) if bt == 'Log' else slop
        kw['bin_slop'] = slop
        kw.pop('angle_slop', None)
    a, b = np.sort(r.uniform(0, 1, 2))
    how = r.rand()
    if bt == 'Log':
        if how < 0.3:      # edges of bins
            k = np.sort(r.choice(nb + 1, 2, replace=False))
            mn, mx = lo * np.exp(k * bs)
        elif how < 0.5:
            mn, mx = lo * np.exp(a * nb * bs), lo * np.exp(b * nb * bs * 1.3 + 0.3)
        elif how < 0.8:
            mn, mx = lo * np.exp(a * nb * bs - 1.), lo * np.exp(b * nb * bs + 1.)
        else:
            mn, mx = lo * float(r.choice([0.1, 0.5, 1])), hi * float(r.choice([1, 1.2]))
    else:
        d = hi - lo
        mn, mx = lo + a * d, lo + b * d * 1.2 + 0.3 * d
        if how < 0.3:
            mn = lo
        if how < 0.15 or (0.3 < how < 0.5):
            mn = 0.
    if bt == 'Log' and not case['auto'] and how > 0.97:
        mn = 0.
    if kw['metric'] == 'Periodic':
        mx = min(mx, 5.2)
    if kw['metric'] == 'Arc':
        mx = min(mx, 3.1 / unit)
    if mn >= mx:
        mn = mx * 0.5
    mn, mx = float(mn), float(mx)
    name = case['cls']
    rep = 1
    rs = np.random.RandomState(r.randint(2**31))
    kw['rng'] = rs
    if r.rand() < 0.2 and not case['fair']:
        del kw['rng']
    corr = gen.corr_cls(tc, name)(**kw)
    pt = dict(patch=[int(x) for x in r.randint(0, 3, len(case['c1']['p']))]) if r.rand() < 0.1 else {}
    cat1 = gen.mk_cat(tc, case['c1'], name[0], **pt)
    cat2 = cat1 if case['auto'] else gen.mk_cat(tc, case['c2'], name[1])
    c2 = case['c1'] if case['auto'] else case['c2']
    skip = {k: v for k, v in kw.items() if k not in ('rng', 'brute', 'bin_slop', 'angle_slop')}
    n1, n2 = len(case['c1']['p']), len(c2['p'])
    before = r.rand()
    if before < 0.5 and n1 > 1:     # other uses of the catalogs come first
        o = gen.corr_cls(tc, name)(bin_slop=2.5, **skip)
        if name[0] == name[1] and kw['metric'] != 'Rlens':
            o.process(cat1)
        else:
            o.process(cat1, cat2) if cat2 is not cat1 else None
        if before < 0.2:
            corr.process(cat1, cat2, num_threads=2)
    n = int(r.choice([0, 1, 2, 3, 5, 10, 30, n1 * n2, n1 * n2 + 5]))
    if case['fair']:
        n = int(r.randint(1, 8))
        rep = 150
    mcall = {} if r.rand() < 0.5 else dict(metric=kw['metric'])
    out = []
    for _ in range(rep):
        i1, i2, sep = corr.sample_pairs(n, cat1, cat2, min_sep=mn, max_sep=mx, **mcall)
        out.append(dict(i1=[int(x) for x in i1], i2=[int(x) for x in i2], sep=SL(sep)))
    bn = bin_record(case['kw'])
    bn.update(min=S(mn * unit), max=S(mx * unit), zero=True)
    bb = dict(bn)
    if bt == 'TwoD':
        bb.update(nbins=1, bs=S(2 * mx * unit))
    else:
        bb.update(nbins=1, bs=S((mx - mn) * unit))
    bb['bs0'] = bn['bs']
    b = slop * bs
    def pos(c):
        return [gen.SL(p) for p in c['p']]
    return [dict(err='', coords=case['c1']['coords'], p1=pos(case['c1']), p2=pos(c2), same=bool(case['auto']), bn=bb,
                 b=S(b), brute=bool(kw.get('brute') is True), n=n, unit=S(unit), vars=out)]
