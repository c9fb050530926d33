"""C01: every pair in range is counted exactly once, in the right bin (exact binning)."""
import json
import os
import numpy as np
from vt.gen import *   # noqa
from .pair_common import run_pair, ERR   # noqa

ID = 'C01'
TRACE = 'PairTrace'
ACT = ['Take', 'Drop', 'Accept', 'SplitPair', 'Finish', 'Merge']
MODELS = [dict(module='PairWalk', cfg='PairWalk_auto.cfg', actions=ACT + ['SelfSplit', 'SelfDone']),
          dict(module='PairWalk', cfg='PairWalk_cross.cfg', actions=ACT),
          dict(module='PairWalk', cfg='PairWalk_leak.cfg', expect='violation'),
          dict(module='PairWalk', cfg='PairWalk_auto4.cfg', actions=ACT + ['SelfSplit', 'SelfDone'], thorough_only=True,
               workers=4, timeout=3000, heap='6g')]
RULE = ('random catalogs (uniform, clumped, collinear, lattice, with duplicates) x coordinate system x metric x bin '
        'type x tree/brute/thread options; every record holds the complete inputs and binned outputs')


def exact_kw(rng, exact=False):
    """options under which the binning is documented to be exact"""
    m = rng.randint(0, 4 if exact else 6)
    if m == 0:
        return dict(brute=True), True
    if m == 1:
        return dict(brute=1, bin_slop=0, angle_slop=0), True
    if m == 2:
        return dict(brute=2, bin_slop=0, angle_slop=0), True
    if m == 3:
        return dict(bin_slop=0, angle_slop=0), True
    return dict(bin_slop=0), False


def tree_kw(rng):
    kw = {}
    if rng.uniform() < 0.6:
        kw['split_method'] = ['mean', 'median', 'middle', 'random'][rng.randint(4)]
    r = rng.randint(4)
    if r == 0:
        kw['min_top'] = int(rng.randint(0, 5))
    elif r == 1:
        kw['max_top'] = int(rng.randint(0, 6))
    elif r == 2:
        a = int(rng.randint(0, 4))
        kw.update(min_top=a, max_top=a + int(rng.randint(0, 4)))
    return kw


def log_bins(rng, lo, hi):
    mn = lo * np.exp(rng.uniform(0, 1.5))
    mx = min(hi, mn * np.exp(rng.uniform(0.5, 3)))
    mx = max(mx, mn * 1.3)
    nb = int(rng.randint(1, 8))
    bs = np.log(mx / mn) / nb
    r = rng.randint(4)
    if r == 0:
        return dict(min_sep=float(mn), max_sep=float(mx), nbins=nb)
    if r == 1:
        return dict(min_sep=float(mn), max_sep=float(mx), bin_size=float(bs * rng.uniform(0.9, 1.3)))
    if r == 2:
        return dict(min_sep=float(mn), nbins=nb, bin_size=float(bs))
    return dict(max_sep=float(mx), nbins=nb, bin_size=float(bs))


def lin_bins(rng, lo, hi, allow0=True):
    mn = 0.0 if (allow0 and rng.uniform() < 0.2) else lo + rng.uniform(0, 0.4) * (hi - lo)
    mx = mn + rng.uniform(0.2, 1) * (hi - mn)
    nb = int(rng.randint(1, 8))
    bs = (mx - mn) / nb
    r = rng.randint(4)
    if r == 0:
        return dict(min_sep=float(mn), max_sep=float(mx), nbins=nb)
    if r == 1:
        return dict(min_sep=float(mn), max_sep=float(mx), bin_size=float(bs * rng.uniform(0.9, 1.3)))
    if r == 2:
        return dict(min_sep=float(mn), nbins=nb, bin_size=float(bs))
    mx = max(mx, nb * bs * 1.001)
    return dict(max_sep=float(mx), nbins=nb, bin_size=float(bs))


def geometry(rng):
    """(coords, metric, scale kwargs, separation range, extra kwargs)"""
    g = rng.randint(0, 10)
    if g <= 1:
        return 'flat', 'Euclidean', dict(scale=5.0), (0.2, 10), {}
    if g == 2:
        return '3d', 'Euclidean', dict(scale=5.0), (0.3, 12), {}
    if g == 3:
        return 'sphere', 'Euclidean', dict(scale=float([0.05, 0.4, 4][rng.randint(3)])), None, {}
    if g == 4:
        if rng.randint(3) == 0:
            return ['3d', 'sphere3'][rng.randint(2)], 'Arc', dict(scale=float([0.4, 4][rng.randint(2)])), None, {}
        return 'sphere', 'Arc', dict(scale=float([0.05, 0.4, 4][rng.randint(3)])), None, {}
    if g == 5:
        return 'flat', 'Periodic', dict(scale=5.0), (0.2, 5.0), \
            dict(xperiod=10.0, yperiod=12.0) if rng.randint(2) else dict(period=10.5)
    if g == 6:
        return '3d', 'Periodic', dict(scale=5.0), (0.2, 5.0), \
            dict(xperiod=10.0, yperiod=12.0, zperiod=11.0) if rng.randint(2) else dict(period=10.5)
    if g == 7:
        return ['sphere3', '3d'][rng.randint(2)], ['Rperp', 'FisherRperp'][rng.randint(2)], dict(scale=0.3), (0.02, 1.2), 'rpar'
    if g == 8:
        return 'sphere3', ['OldRperp', 'Rlens'][rng.randint(2)], dict(scale=0.3), (0.02, 1.2), 'rpar'
    return 'sphere3', 'Euclidean', dict(scale=0.4), (0.05, 3), 'rpar'


def one(rng, classes, big=False, wmodes=('pos', 'pos', 'unit', 'neg'), exact=False):
    coords, metric, sc, rng_sep, extra = geometry(rng)
    kw, meanexact = exact_kw(rng, exact)
    if metric in ('Rperp', 'FisherRperp', 'OldRperp', 'Rlens') or extra == 'rpar':
        # pruning with these metrics is documented as approximate for extended cells
        kw, meanexact = dict(brute=True), True
    kw.update(tree_kw(rng))
    name = classes[rng.randint(len(classes))]
    su = ''
    if rng_sep is None:
        s = sc['scale']
        rng_sep = (s * 0.05, min(s * 2, 3.1 if metric == 'Arc' else 1.9))
        su = ['radians', 'degrees', 'arcmin', '', 'arcsec', 'hours'][rng.randint(6)]
        u = {'': 1, 'radians': 1, 'degrees': np.pi / 180, 'arcmin': np.pi / 10800, 'arcsec': np.pi / 648000,
             'hours': np.pi / 12}[su]
        rng_sep = (rng_sep[0] / u, rng_sep[1] / u)
    bt = ['Log', 'Log', 'Linear'][rng.randint(3)]
    if coords == 'flat' and metric == 'Euclidean' and rng.uniform() < 0.4:
        bt = 'TwoD'
    if bt == 'Log':
        b = log_bins(rng, *rng_sep)
    elif bt == 'Linear':
        b = lin_bins(rng, *rng_sep)
    else:
        mx = float(rng.uniform(2, 8))
        nb = int(rng.randint(1, 6))
        b = [dict(max_sep=mx, nbins=nb), dict(nbins=nb, bin_size=2 * mx / nb),
             dict(max_sep=mx, bin_size=2 * mx / nb * float(rng.uniform(0.9, 1.2)))][rng.randint(3)]
        if rng.uniform() < 0.4:
            b['min_sep'] = float(rng.uniform(0.2, 1.8))
    kw.update(b)
    if metric == 'Periodic' and b.get('max_sep', 0) > 5.25:
        kw['max_sep'] = 5.2
    kw.update(bin_type=bt, metric=metric)
    if su:
        kw['sep_units'] = su
    if extra == 'rpar':
        extra = {}
        r = rng.randint(4)
        if r & 1:
            extra['min_rpar'] = float(rng.uniform(-1.5, 0.2))
        if r & 2:
            extra['max_rpar'] = float(rng.uniform(0.3, 1.5))
    kw.update(extra)
    n = int(rng.choice([1, 2, 3, 5, 8, 12, 16, 22] if not big else [30, 40]))
    kind = ['uniform', 'uniform', 'clump', 'line', 'dup'][rng.randint(5)]
    wm = wmodes[rng.randint(len(wmodes))]
    cen = (1.0, 1.5, 3.0) if coords == '3d' and metric != 'Periodic' else None
    if coords.startswith('sphere'):
        cen = (float(rng.uniform(0, 6.28)), float(rng.uniform(-1.1, 1.1)))
    vlo = 0.125 if (wm == 'neg') else -2
    c1 = cat(rng, n, coords, wmode=wm, kind=kind, center=cen, vlo=vlo, **sc)
    auto = bool(name[0] == name[1] and rng.randint(2)) and metric != 'Rlens'
    if auto and ('min_rpar' in kw or 'max_rpar' in kw):
        # which object of an unordered pair comes first is arbitrary, so only a symmetric range is meaningful
        m = float(rng.uniform(0.1, 1.2))
        kw.update(min_rpar=-m, max_rpar=m)
    c2 = None
    if not auto:
        n2 = int(rng.choice([1, 2, 4, 9, 14]))
        co2 = coords
        c2 = cat(rng, n2, co2, wmode=wm, kind='uniform', center=cen, vlo=vlo, **sc)
        if coords != 'mixed' and metric != 'Rlens' and rng.uniform() < 0.08:
            c2 = json.loads(json.dumps(c1))     # a catalog with a copy of itself
            if kw.get('min_sep') == 0. and set(name) & set('ZVGTQ'):
                kw['min_sep'] = 0.05            # (complex fields have no direction to be projected along at zero separation)
    if metric == 'Periodic' and rng.randint(3) == 0:
        # positions in any of the periods
        per = [kw.get(q, kw.get('period', 0)) for q in ('xperiod', 'yperiod', 'zperiod')]
        for c in [c1] + ([c2] if c2 is not None else []):
            c['p'] = [[float(x + t * rng.randint(-3, 4)) for x, t in zip(p, per)] for p in c['p']]
    return dict(cls=name, kw=kw, c1=c1, c2=c2, auto=auto, nt=int([1, 1, 2, 4][rng.randint(4)]), meanexact=meanexact)


def edge_case(rng, classes):
    """lattice positions with separations falling exactly on the limits of the range or of a bin"""
    name = classes[rng.randint(len(classes))]
    # (with extended cells the decision at the edge depends on rounding in the cell centers and sizes)
    kw, meanexact = dict(brute=True), True
    kw.update(tree_kw(rng))
    if rng.randint(3) == 0:
        kw.update(bin_type='TwoD', nbins=int(rng.choice([2, 4, 8])), bin_size=float(rng.choice([1, 2, 0.5])))
    else:
        mn = int(rng.randint(1, 6))
        bs = int(rng.choice([1, 2, 4]))
        kw.update(bin_type='Linear', min_sep=float(mn), nbins=int(rng.randint(1, 5)), bin_size=float(bs))
    n = int(rng.choice([2, 4, 8, 14]))
    coords = ['flat', '3d'][rng.randint(2)] if kw['bin_type'] == 'Linear' else 'flat'
    c1 = cat(rng, n, coords, kind='lattice')
    auto = bool(name[0] == name[1] and rng.randint(2))
    c2 = None if auto else cat(rng, int(rng.choice([1, 3, 8])), coords, kind='lattice')
    return dict(cls=name, kw=kw, c1=c1, c2=c2, auto=auto, nt=1, meanexact=meanexact, edge=True)


def cases(seed, tier):
    rng = np.random.RandomState(1000 + seed)
    n = 4500 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        out.append(one(rng, ['NN'] if i % 4 else CLASSES, big=(i % 17 == 0)))
        if i % 4 == 0:
            out.append(edge_case(rng, ['NN', 'NN', 'KK', 'NK']))
    return out + known('c01_rpar')


def known(name):
    """fixed inputs that reproduce a known finding"""
    with open(os.path.join(os.path.dirname(__file__), 'known', name + '.json')) as f:
        return [json.load(f)]


def run(case):
    return run_pair(case, pairs=True, fields=False)



def key(case, rec, clauses):
    if case.get('known') and not rec['err'] and 'raised' not in clauses:
        return case['known']
    return 'linear-min_sep-0-coincident-objects' if clauses == '{"coincident_pairs"}' else ''
