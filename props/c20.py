"""C20: every triangle in range is counted once, in its bin, with the right product."""
import numpy as np
from vt.gen import *   # noqa
from .tri_common import *   # noqa
from .pair_common import UNITS
from . import c01

ID = 'C20'
TRACE = 'TriTrace'
ACT = ['Start', 'Arrange', 'Divide']
MODELS = [dict(module='TriWalk', cfg='TriWalk_ruv.cfg', workers=3, timeout=600, actions=ACT),
          dict(module='TriWalk', cfg='TriWalk_sas.cfg', workers=3, timeout=600, actions=ACT),
          dict(module='TriWalk', cfg='TriWalk_uv.cfg', workers=2, timeout=600, actions=ACT),
          dict(module='TriWalk', cfg='TriWalk_bad.cfg', workers=2, expect='violation'),
          dict(module='TriWalk', cfg='TriWalk_badu.cfg', workers=2, expect='violation'),
          dict(module='TriWalk', cfg='TriWalk_badsas.cfg', workers=2, expect='violation')] + [
          dict(module='TriWalk', cfg='TriWalk_deep%d.cfg' % i, workers=8, thorough_only=True, timeout=4000, heap='8g')
          for i in (1, 2, 3, 4)]
RULE = ('random NNN/KKK/GGG catalogs of 3-9 objects (flat, sky, 3d, sky with distances; Euclidean, Arc, Periodic) x LogRUV/LogSAS '
        'binnings with restricted u, v, phi ranges and units x auto / two / three catalogs, ordered or not x tree options, threads')
ERR = dict(err='')


def slop0(rng):
    r = rng.randint(3)
    if r == 0:
        return dict(brute=True)
    if r == 1:
        return dict(bin_slop=0, angle_slop=0)
    return dict(bin_slop=0, angle_slop=0, brute=False)


def bins3(kw):
    unit = UNITS[kw.get('sep_units', '')]
    pu = UNITS[{'rad': 'radians', 'deg': 'degrees'}.get(kw.get('phi_units', 'rad'), '')]
    mn, mx, nb = kw['min_sep'] * unit, kw['max_sep'] * unit, kw['nbins']
    per = kw.get('period', 0)
    per = [kw.get(k, per) for k in ('xperiod', 'yperiod', 'zperiod')] if kw.get('metric') == 'Periodic' else [0, 0, 0]
    b = dict(type=kw['bin_type'], metric=kw.get('metric', 'Euclidean'), per=[S(x) for x in per], min=S(mn), max=S(mx),
             nbins=nb, bs=S(np.log(mx / mn) / nb), minu=0, maxu=0, nu=0, ubs=1, minv=0, maxv=0, nv=0, vbs=1, minphi=0,
             maxphi=0, nphi=0, phibs=1, maxn=0)
    if b['type'] == 'LogRUV':
        for x in 'uv':
            lo, hi, n = kw.get('min_' + x, 0), kw.get('max_' + x, 1), kw['n%sbins' % x]
            b.update({'min' + x: S(lo), 'max' + x: S(hi), 'n' + x: n, x + 'bs': S((hi - lo) / n)})
    elif b['type'] == 'LogSAS':
        lo, hi, n = kw.get('min_phi', 0) * pu, (kw['max_phi'] * pu if 'max_phi' in kw else np.pi), kw['nphi_bins']
        b.update(minphi=S(lo), maxphi=S(hi), nphi=n, phibs=S((hi - lo) / n))
    else:
        b['maxn'] = kw['max_n']
    return b, unit, pu


def tri_record(case, corr, out=None):
    kw, name = case['kw'], case['cls']
    bn, unit, pu = bins3(kw)
    n = [len(c['p']) for c in case['cats']]
    return dict(err='', coords=case['cats'][0]['coords'], pool=[p for c in case['cats'] for p in pts(c)], n=n + [0] * (3 - len(n)),
                mode=12 if case['mode'] == 21 else case['mode'], ordered=case['ordered'], letter=name[0], bn=bn,
                unit=S(unit), phiunit=S(pu), chord=(case['cats'][0]['coords'] == 'sphere' and bn['metric'] == 'Euclidean'),
                out=out or tri_out(corr, name), tot=[S(corr.tot)] if name == 'NNN' else [])


def tri_out(corr, name):
    o = out3(corr, name)
    if corr.bin_type == 'LogMultipole':
        o.setdefault('weight_im', SL(np.zeros(corr.weight.shape)))
        for n in ('zeta',):
            if n in o:
                o.setdefault(n + '_im', SL(np.zeros(corr.weight.shape)))
    return o


def units3(rng, case):
    """other units for the same binning"""
    kw = case['kw']
    if kw.get('sep_units') == 'rad':
        u = ['radians', 'degrees', 'arcmin', 'hours'][rng.randint(4)]
        f = UNITS[u]
        kw.update(sep_units=u, min_sep=float(kw['min_sep'] / f), max_sep=float(kw['max_sep'] / f))
    if 'min_phi' in kw and rng.randint(2):
        kw.update(phi_units='deg', min_phi=float(np.degrees(kw['min_phi'])), max_phi=float(min(180., np.degrees(kw['max_phi']))))
    elif kw['bin_type'] == 'LogSAS' and rng.randint(4) == 0:
        kw['phi_units'] = 'deg'


def wide(rng, case):
    """some data sets: the whole sky, 3d around the origin, repeated positions"""
    r = rng.randint(12)
    kw = case['kw']
    co = case['cats'][0]['coords']
    if co == 'sphere' and r < 4:
        for c in case['cats']:
            n = len(c['p'])
            c['p'] = [[float(a), float(b)] for a, b in zip(rng.uniform(0, 2 * np.pi, n), np.arcsin(rng.uniform(-1, 1, n)))]
        kw['max_sep'] = float(rng.uniform(1.2, 1.95 if kw['metric'] == 'Euclidean' else 3.1))
        kw['min_sep'] = float(kw['max_sep'] * rng.uniform(0.05, 0.5))
    elif co in ('3d', 'sphere3') and r < 2 and kw['metric'] == 'Euclidean':
        for c in case['cats']:
            n = len(c['p'])
            p = rng.normal(0, 3, (n, 3))
            if co == 'sphere3':
                rr = np.sqrt((p**2).sum(1))
                p = np.array([np.arctan2(p[:, 1], p[:, 0]) % (2 * np.pi), np.arcsin(p[:, 2] / rr), rr]).T
            c['p'] = [[float(x) for x in q] for q in p]
    elif r == 5:
        for c in case['cats']:
            n = len(c['p'])
            c['p'] = [c['p'][int(i)] for i in rng.randint(0, n, n)]


def one(rng, bts, nmax=8):
    case = case3(rng, bts=bts, nmax=nmax)
    while case['kw']['metric'] == 'Periodic' and case['kw']['bin_type'] != 'LogRUV' and case['cats'][0]['coords'] == '3d':
        case = case3(rng, bts=bts, nmax=nmax)    # no orientation in a periodic 3d box
    wide(rng, case)
    if rng.randint(6) == 0:
        for c in case['cats']:
            c['w'] = weights(rng, len(c['p']), 'neg')
    if case['mode'] != 0:
        for c in case['cats']:
            m = 5 if case['mode'] in (12, 21) else 4
            for k in ('p', 'w', 'v'):
                c[k] = c[k][:m + 1]
    units3(rng, case)
    case['kw'].update(slop0(rng))
    case['kw'].update(c01.tree_kw(rng))
    if case['kw'].get('brute') is None:
        case['kw'].pop('brute', None)
    if case['kw']['bin_type'] == 'LogSAS':
        case['algo'] = 'triangle'
    return case


def cases(seed, tier):
    rng = np.random.RandomState(20000 + seed)
    n = 4000 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        out.append(one(rng, ('LogRUV', 'LogSAS'), nmax=11 if i % 20 == 0 else 8))
    return out + c01.known('c20_periodic')


def run(case):
    import treecorr as tc
    corr = run3(tc, case)
    return [tri_record(case, corr)]


def key(case, rec, clauses):
    return 'periodic-triangle-directions' if clauses == '{"periodic_raw"}' else case.get('known', '')
