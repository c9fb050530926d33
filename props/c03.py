"""C03: bin_slop and angle_slop bound what may happen to every pair."""
import numpy as np
from vt.gen import *   # noqa
from . import c01
from .pair_common import run_pair, bin_record, UNITS, ERR   # noqa

ID = 'C03'
TRACE = 'SlopTrace'
ACT = ['Start', 'Within', 'Between']
MODELS = [dict(module='SlopWalk', cfg='SlopWalk_quick.cfg', workers=2, actions=ACT),
          dict(module='SlopWalk', cfg='SlopWalk_zero.cfg', workers=2, actions=ACT),
          dict(module='SlopWalk', cfg='SlopWalk_wide.cfg', workers=2, actions=ACT),
          dict(module='SlopWalk', cfg='SlopWalk_bad.cfg', workers=2, expect='violation'),
          dict(module='SlopWalk', cfg='SlopWalk_deep.cfg', workers=8, thorough_only=True, timeout=4000, heap='8g')]
RULE = ('random catalogs x coordinates x Euclidean/Arc/Periodic x bin type x bin_slop/angle_slop (default to 3 bins) x '
        'tree options; for every interval of bins the counts, weights and scalar sums must lie between the pairs that '
        'have to be there and those that may be')


def one(rng, i):
    g = rng.randint(7)
    coords, metric, sep, sc, extra = [
        ('flat', 'Euclidean', (0.2, 10), dict(scale=5.), {}), ('flat', 'Euclidean', (0.2, 10), dict(scale=5.), {}),
        ('3d', 'Euclidean', (0.3, 12), dict(scale=5.), {}), ('sphere', 'Euclidean', None, None, {}),
        ('sphere', 'Arc', None, None, {}), ('flat', 'Periodic', (0.2, 5), dict(scale=5.), dict(xperiod=10.0, yperiod=12.0)),
        ('3d', 'Periodic', (0.2, 5), dict(scale=5.), dict(period=10.5))][g]
    kw = dict(metric=metric)
    kw.update(extra)
    if sep is None:
        sc = dict(scale=float([0.05, 0.4, 4][rng.randint(3)]))
        s = sc['scale']
        sep = (s * 0.05, min(s * 2, 3.1 if metric == 'Arc' else 1.9))
        su = ['radians', 'degrees', 'arcmin', 'hours'][rng.randint(4)]
        sep = (sep[0] / UNITS[su], sep[1] / UNITS[su])
        kw['sep_units'] = su
    bt = ['Log', 'Log', 'Linear', 'TwoD'][rng.randint(4)]
    if bt == 'TwoD' and (coords != 'flat' or metric != 'Euclidean'):
        bt = 'Linear'
    angle = coords == 'flat' and metric == 'Euclidean' and bt != 'TwoD' and rng.randint(3) == 0
    if bt == 'TwoD':
        b = dict(max_sep=float(rng.uniform(2, 8)), nbins=int(rng.randint(2, 6)))
        if rng.randint(3) == 0:
            b['min_sep'] = float(rng.uniform(0.2, 1.8))
    elif angle:
        b = dict(min_sep=float([0.01, 0.1][rng.randint(2)]), max_sep=float(rng.uniform(25, 40)), nbins=int(rng.randint(1, 8)))
    else:
        b = c01.log_bins(rng, *sep) if bt == 'Log' else c01.lin_bins(rng, *sep)
    kw.update(b, bin_type=bt)
    if metric == 'Periodic' and kw.get('max_sep', 0) > 5:
        kw['max_sep'] = 4.9
    r = rng.randint(8)
    if r > 0:
        kw['bin_slop'] = float([0.1, 0.3, 0.5, 1, 1, 2, 3][r - 1])
    r = rng.randint(4)
    if r:
        kw['angle_slop'] = float([0.02, 0.3, 1][r - 1])
    kw.update(c01.tree_kw(rng))
    if rng.randint(12) == 0:
        kw['brute'] = [True, 1, 2][rng.randint(3)]
    n = int(rng.choice([2, 5, 12, 24, 40]))
    kind = ['uniform', 'clump', 'clump', 'line', 'dup'][rng.randint(5)]
    cen = (float(rng.uniform(0, 6.28)), float(rng.uniform(-1.1, 1.1))) if coords == 'sphere' else None
    name = ['NN', 'NN', 'KK', 'NK'][rng.randint(4)]
    if angle:
        name = ['NG', 'KV', 'GG', 'VV', 'TT', 'NQ', 'QQ', 'KG', 'NZ', 'ZZ'][rng.randint(10)]
    vlo = -2 if angle else 0.125
    c1 = cat(rng, n, coords, wmode='pos', kind=kind, center=cen, vlo=vlo, **sc)
    auto = bool(name[0] == name[1] and rng.randint(2))
    c2 = None if auto else cat(rng, int(rng.choice([1, 6, 14, 20])), coords, wmode='pos',
                               kind=['uniform', 'clump'][rng.randint(2)], center=cen, vlo=vlo, **sc)
    return dict(cls=name, kw=kw, c1=c1, c2=c2, auto=auto, nt=int([1, 1, 2, 4][rng.randint(4)]), angle=bool(angle))


def clumps(rng, case):
    """put the objects in two or three tight clumps whose separations are near bin edges and whose sizes are near the slop"""
    kw = case['kw']
    co = case['c1']['coords']
    d = 3 if co == '3d' else 2
    bn = bin_record(kw)
    mn, bs, nb = float(bn['min']), float(bn['bs']), int(bn['nbins'])
    k = int(rng.randint(0, nb + 1))
    e = mn * np.exp(k * bs) if bn['type'] == 'Log' else mn + k * bs
    if bn['type'] == 'TwoD':
        e = float(bn['max']) * rng.uniform(0.1, 1.4)
    e = max(e, 1e-3)
    b = kw.get('bin_slop', 1.) * bs * (e if bn['type'] == 'Log' else 1.)
    b = min(b, kw.get('angle_slop', 1.) * e)
    rad = b * rng.uniform(0.1, 0.9) if rng.randint(2) else (b + 0.5 * bs * (e if bn['type'] == 'Log' else 1)) * rng.uniform(0.1, 0.7)
    if co == 'sphere':
        e, rad = min(e, 1.5), min(rad, 0.7)
    elif kw['metric'] == 'Periodic':
        e, rad = min(e, 4.), min(rad, 2.)
    u = rng.normal(0, 1, d)
    u /= np.linalg.norm(u)
    c0 = np.array(case['c1']['p'][0])[:d]
    if co == 'sphere':
        c0 = np.array([c0[0], c0[1] * 0.3])
    cen = [c0, c0 + u * e * rng.uniform(0.85, 1.15), c0 - u * e * rng.uniform(0.85, 1.15)]
    def fill(c, which):
        # mostly along the line of sight between the clumps, where the separation changes most
        for i, p in enumerate(c['p']):
            off = u * (rng.uniform(-1, 1) if rng.randint(2) else [-1, 1][rng.randint(2)]) * rad if rng.randint(3) else rng.normal(0, 0.4, d) * rad
            q = cen[which(i)] + off
            if co == 'sphere':
                q = [q[0], float(np.clip(q[1], -1.4, 1.4))]
            c['p'][i] = [float(x) for x in q] + p[d:]
    if case['auto']:
        m = int(rng.randint(2, 4))
        fill(case['c1'], lambda i: i % m)
    else:
        fill(case['c1'], lambda i: 0)
        m = int(rng.randint(1, 3))
        fill(case['c2'], lambda i: 1 + i % m)
    return case


def cases(seed, tier):
    rng = np.random.RandomState(3000 + seed)
    out = []
    for i in range(3600 if tier == 'quick' else 50000):
        c = one(rng, i)
        out.append(clumps(rng, c) if i % 2 and not c['angle'] else c)
    return out


def run(case):
    rec = run_pair(case, pairs=True, fields=True)[0]
    kw = case['kw']
    bt = kw['bin_type']
    unit = UNITS[kw.get('sep_units', '')]
    bs = float(bin_record(kw)['bs'])
    slop = kw.get('bin_slop')
    if slop is None:
        # documented default: no bin is more than 10% off (and at most a whole bin)
        slop = min(1., 0.1 / bs) if bt == 'Log' else 1.
    rec['b'] = S(slop * bs)
    rec['a'] = S(kw.get('angle_slop', 1 if case['cls'] in ('NN', 'NK', 'KK') else 0.1))
    rec['angle'] = case['angle']
    return [rec]
