"""Shared by the three-point properties: inputs, running, and recorded outputs."""
import numpy as np
from vt.gen import *   # noqa
from . import c01

CLASSES3 = ['NNN', 'KKK', 'GGG']


def geom3(rng, metrics=('Euclidean', 'Euclidean', 'Arc', 'Periodic')):
    """(coords, metric, catalog kwargs, (lo, hi) separations in natural units, extra kw, sep_units)"""
    g = rng.randint(6)
    if g <= 1:
        m = 'Periodic' if 'Periodic' in metrics and rng.randint(3) == 0 else 'Euclidean'
        ex = dict(xperiod=10.0, yperiod=12.0) if m == 'Periodic' else {}
        return 'flat', m, dict(scale=5.0), (0.5, 5.0 if m == 'Periodic' else 8.), ex
    if g == 2:
        m = 'Periodic' if 'Periodic' in metrics and rng.randint(4) == 0 else 'Euclidean'
        ex = dict(period=10.5) if m == 'Periodic' else {}
        return '3d', m, dict(scale=5.0, center=None if m == 'Periodic' else (12.0, 9.0, 15.0)), (0.5, 5.0 if m == 'Periodic' else 9.), ex
    if g == 3:
        return 'sphere3', 'Euclidean', dict(scale=0.4, center=(float(rng.uniform(0, 6.28)), float(rng.uniform(-1.1, 1.1)))), (0.2, 3.), {}
    s = float([0.05, 0.4][rng.randint(2)])
    m = 'Arc' if 'Arc' in metrics and rng.randint(3) == 0 else 'Euclidean'
    return 'sphere', m, dict(scale=s, center=(float(rng.uniform(0, 6.28)), float(rng.uniform(-1.1, 1.1)))), (0.1 * s, 1.8 * s), {}


def binning3(rng, bt, lo, hi):
    mn = lo * np.exp(rng.uniform(0, 0.8))
    mx = max(mn * 1.5, hi * rng.uniform(0.5, 1))
    kw = dict(min_sep=float(mn), max_sep=float(mx), nbins=int(rng.randint(1, 5)), bin_type=bt)
    if bt == 'LogRUV':
        kw.update(nubins=int(rng.randint(1, 5)), nvbins=int(rng.randint(1, 5)))
        r = rng.randint(4)
        if r & 1:
            a = rng.uniform(0, 0.6)
            kw.update(min_u=float(a), max_u=float(a + (1 - a) * rng.uniform(0.4, 1)))
        if r & 2:
            a = rng.uniform(0, 0.6)
            kw.update(min_v=float(a), max_v=float(a + (1 - a) * rng.uniform(0.4, 1)))
    elif bt == 'LogSAS':
        kw.update(nphi_bins=int(rng.randint(1, 6)))
        if rng.randint(3) == 0:
            a = rng.uniform(0, 1.5)
            kw.update(min_phi=float(a), max_phi=float(min(np.pi, a + rng.uniform(0.5, 2))), phi_units='rad')
    else:
        kw.update(max_n=int(rng.randint(1, 6)))
    return kw


def case3(rng, bts=('LogRUV', 'LogSAS', 'LogMultipole'), nmax=11, **kw):
    coords, metric, sc, (lo, hi), ex = geom3(rng, **kw)
    bt = bts[rng.randint(len(bts))]
    name = CLASSES3[rng.randint(3)]
    k = binning3(rng, bt, lo, hi)
    if metric == 'Periodic':
        # (a triangle has to be smaller than half the box for its three sides to be those of one triangle)
        k['max_sep'] = min(k['max_sep'], 2.45)
        if k['max_sep'] <= k['min_sep'] * 1.2:
            k['min_sep'] = k['max_sep'] / 2
    if coords == 'sphere':
        k['sep_units'] = 'rad'
        k['max_sep'] = min(k['max_sep'], 1.9)
    k.update(metric=metric, **ex)
    case = dict(cls=name, kw=k, mode=[0, 0, 12, 21, 3][rng.randint(5)], ordered=bool(rng.randint(2)),
                nt=int([1, 1, 2, 4][rng.randint(4)]))
    kind = ['uniform', 'uniform', 'clump', 'dup', 'line'][rng.randint(5)]
    if coords == '3d' or kind == 'dup' and bt != 'LogRUV':
        kind = 'uniform'
    case['cats'] = [cat(rng, int(rng.randint(1 if i else 3, nmax + 1)), coords, wmode=['unit', 'pos', 'pos'][rng.randint(3)], kind=kind, **sc)
                    for i in range({0: 1, 12: 2, 21: 2, 3: 3}[case['mode']])]
    return case


def run3(tc, case, cats=None, **over):
    kw = dict(case['kw'], **over)
    algo = kw.pop('algo', case.get('algo'))
    corr = corr_cls(tc, case['cls'])(**kw)
    L = case['cls'][0]
    cats = cats or [mk_cat(tc, c, L) for c in case['cats']]
    pk = dict(num_threads=case.get('nt', 1))
    if algo:
        pk['algo'] = algo
        if algo == 'multipole' and 'max_n' in case:
            pk['max_n'] = case['max_n']
    if case['mode'] == 0:
        corr.process(cats[0], **pk)
    elif case['mode'] in (12, 21):
        corr.process(cats[0], cats[1], ordered=case['ordered'], **pk)
    else:
        corr.process(*cats, ordered=case['ordered'], **pk)
    return corr


def out3(c, name, sums=False):
    o = {}

    def add(n, a):
        a = np.asarray(a)
        if sums and n not in ('ntri', 'weight'):
            a = a * c.weight
        if a.dtype.kind == 'c':
            o[n], o[n + '_im'] = SL(a.real), SL(a.imag)
        else:
            o[n] = SL(a)
    for n in ('ntri', 'weight', 'meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3'):
        add(n, getattr(c, n))
    if c.bin_type == 'LogRUV':
        add('meanu', c.meanu), add('meanv', c.meanv)
    elif c.bin_type == 'LogSAS':
        add('meanphi', c.meanphi)
    if name == 'KKK':
        add('zeta', c.zeta)
    elif name == 'GGG':
        for n in ('gam0', 'gam1', 'gam2', 'gam3'):
            add(n, getattr(c, n))
    return o
