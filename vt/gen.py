"""Random inputs for the drivers.  A catalog is a JSON-able dict; mk_cat builds the real treecorr.Catalog."""
import numpy as np

SPINL = 'VGTQ'


def S(x):
    """A real number for the trace: integers as ints, everything else as a decimal string."""
    x = float(x)
    if x == int(x) and abs(x) < 1e9 if np.isfinite(x) else False:
        return int(x)
    if np.isnan(x):
        return 'nan'
    if np.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return repr(x)


def SL(a):
    return [S(x) for x in np.asarray(a, dtype=float).ravel()]


def q8(rng, lo, hi, n):
    """multiples of 1/8 in [lo,hi]: exactly representable in the float32 the C++ cells use"""
    return rng.randint(int(lo * 8), int(hi * 8) + 1, n) / 8.


def weights(rng, n, mode):
    if mode == 'unit':
        return [1.0] * n
    if mode == 'pos':
        return [float(x) for x in q8(rng, 0.125, 4, n)]
    if mode == 'neg':
        w = q8(rng, -1, 4, n)
        w[w == 0] = 0.5
        if w.sum() <= 0.5 * n:    # a catalog needs a positive total weight
            w = np.abs(w)
            if n > 3:
                w[rng.randint(n)] = -0.125
        return [float(x) for x in w]
    raise ValueError(mode)


def positions(rng, n, coords, scale=1.0, kind='uniform', rlo=2.0, rhi=4.0, center=None):
    """list of coordinate tuples: flat (x,y), 3d (x,y,z), sphere (ra,dec) rad, sphere3 (ra,dec,r)"""
    if coords == 'flat':
        d = 2
    else:
        d = 3
    if kind == 'uniform':
        p = rng.uniform(-1, 1, (n, d)) * scale
    elif kind == 'clump':
        nc = max(1, n // 5)
        c = rng.uniform(-1, 1, (nc, d)) * scale
        p = c[rng.randint(0, nc, n)] + rng.normal(0, 0.05 * scale, (n, d))
    elif kind == 'line':
        t = rng.uniform(-1, 1, n)
        v = rng.normal(0, 1, d)
        p = t[:, None] * v * scale + rng.normal(0, 1e-3 * scale, (n, d))
    elif kind == 'lattice':
        p = rng.randint(-4, 5, (n, d)).astype(float) * scale
    elif kind == 'dup':
        p = rng.uniform(-1, 1, (n, d)) * scale
        k = rng.randint(0, n, n)
        m = rng.uniform(0, 1, n) < 0.3
        p[m] = p[k[m]]
    else:
        raise ValueError(kind)
    if coords in ('flat', '3d'):
        if coords == '3d' and center is not None:
            p = p + np.array(center)
        return [[float(x) for x in q] for q in p]
    # scale = angular size in radians around a random center
    if center is None:
        center = (rng.uniform(0, 2 * np.pi), rng.uniform(-1.2, 1.2))
    if scale >= 3:
        ra = rng.uniform(0, 2 * np.pi, n)
        dec = np.arcsin(rng.uniform(-0.99, 0.99, n))
    else:
        dec = np.clip(center[1] + p[:, 1], -1.5, 1.5)
        ra = center[0] + p[:, 0] / max(np.cos(center[1]), 0.2)
    if coords == 'sphere':
        return [[float(a), float(b)] for a, b in zip(ra, dec)]
    r = rng.uniform(rlo, rhi, n)
    return [[float(a), float(b), float(c)] for a, b, c in zip(ra, dec, r)]


def cat(rng, n, coords, wmode='pos', **kw):
    vlo = kw.pop('vlo', -2)
    p = positions(rng, n, coords, **kw)
    v = [[float(a), float(b)] for a, b in zip(q8(rng, vlo, 2, n), q8(rng, vlo, 2, n))]
    return dict(coords=coords, p=p, w=weights(rng, n, wmode), v=v)


def cat_kwargs(c, letter='N', patch=None, w=True, **kw):
    """keyword arguments for treecorr.Catalog for this dict"""
    a = np.array(c['p'], dtype=float)
    k = dict(kw)
    if c['coords'] == 'flat':
        k.update(x=a[:, 0], y=a[:, 1])
    elif c['coords'] == '3d':
        k.update(x=a[:, 0], y=a[:, 1], z=a[:, 2])
    else:
        k.update(ra=a[:, 0], dec=a[:, 1], ra_units='rad', dec_units='rad')
        if c['coords'] == 'sphere3':
            k.update(r=a[:, 2])
    if w:
        k['w'] = np.array(c['w'], dtype=float)
    v = np.array(c['v'], dtype=float)
    for L in letter:
        if L == 'K':
            k['k'] = v[:, 0]
        elif L in 'ZVGTQ':
            k[L.lower() + '1'] = v[:, 0]
            k[L.lower() + '2'] = v[:, 1]
    if patch is not None:
        k['patch'] = patch
    return k


def mk_cat(tc, c, letter='N', **kw):
    return tc.Catalog(**cat_kwargs(c, letter, **kw))


def pts(c):
    """the trace form of a catalog"""
    return [dict(p=[S(x) for x in p], w=S(w), v=[S(v[0]), S(v[1])]) for p, w, v in zip(c['p'], c['w'], c['v'])]


CLASSES = ['NN', 'NK', 'KK', 'NZ', 'KZ', 'ZZ', 'NV', 'KV', 'VV', 'NG', 'KG', 'GG', 'NT', 'KT', 'TT', 'NQ', 'KQ', 'QQ']


def corr_cls(tc, name):
    return getattr(tc, name + 'Correlation')


def xi_arrays(corr, name):
    """(xi, xi_im, xim, xim_im) as trace lists; empty where the class has no such array"""
    if name == 'NN':
        return [], [], [], []
    if name in ('NK', 'KK'):
        return SL(corr.xi), [], [], []
    if name[0] in 'NK':
        return SL(corr.xi), SL(corr.xi_im), [], []
    return SL(corr.xip), SL(corr.xip_im), SL(corr.xim), SL(corr.xim_im)


def bins(tc_corr, metric, per=(0, 0, 0)):
    """binning record (in natural units: radians for angles)"""
    c = tc_corr
    rl = c.config
    return dict(type=c.bin_type, metric=metric, nbins=int(c.nbins),
                min=S(c._min_sep), max=S(c._max_sep), bs=S(c._bin_size),
                minrpar=S(rl['min_rpar']) if rl.get('min_rpar') is not None else '-inf',
                maxrpar=S(rl['max_rpar']) if rl.get('max_rpar') is not None else 'inf',
                per=[S(x) for x in per])
