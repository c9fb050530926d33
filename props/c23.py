"""C23: the binning derived from whatever subset of the bin parameters is given."""
import copy as cp
import pickle

import numpy as np
from vt.gen import *   # noqa

ID = 'C23'
TRACE = 'BinParamsTrace'
MODELS = [dict(module='BinParamsMC', cfg='BinParamsMC.cfg', workers=4, timeout=300, actions=['Give', 'Stop'])]
RULE = ('every subset of nbins/bin_size/min_sep/max_sep (and of the u, v, phi parameters), random and exact-multiple values, zeros, negatives, '
        'reversed ranges, unknown and foreign parameters, all units, every class; given as keywords, configuration, both, strings; repr, copy, pickle')
A, H = np.pi / 180, np.pi / 12
UNIT = {'': 1.0, 'rad': 1.0, 'radians': 1.0, 'deg': A, 'degrees': A, 'hr': H, 'hours': H, 'arcmin': A / 60, 'arcsec': A / 3600}
C2 = 'NN NK KK NG KG GG NV KV VV NZ KZ ZZ NT KT TT NQ KQ QQ'.split()
C3 = 'NNN KKK GGG'.split()
SLOP1 = {'NN', 'NK', 'KK', 'NNN', 'KKK'}
INTS = {'nbins', 'nubins', 'nvbins', 'nphi_bins', 'max_n'}


def one(rng):
    g = {}
    dim = 2 + rng.randint(2)
    bt = ['Log', 'Linear', 'TwoD'][rng.randint(3)] if dim == 2 else ['LogRUV', 'LogSAS', 'LogMultipole'][rng.randint(3)]
    n = int(rng.randint(1, 7 if bt != 'TwoD' and dim == 2 else 4))
    exact = rng.randint(3) == 0
    lo = float(rng.choice([0.5, 1, 2, 10])) if exact else float(np.round(np.exp(rng.uniform(-5, 5)), int(rng.randint(2, 8))))
    lo = max(lo, 1e-3)
    size = float(rng.choice([0.05, 0.1, 0.25, 0.7, 1.0])) if exact else float(rng.uniform(0.02, 1.5))
    if bt in ('Linear', 'TwoD'):
        size *= lo
    hi = lo * np.exp(n * size) if bt not in ('Linear', 'TwoD') else lo + n * size if bt == 'Linear' else n * size / 2
    hi = float(hi)
    if not exact:
        hi *= rng.uniform(0.97, 1.0) if hi * 0.97 > lo and rng.randint(2) else 1
    full = dict(nbins=n, bin_size=size, min_sep=lo, max_sep=hi)
    names = list(full)
    if bt == 'TwoD':
        names.remove('min_sep')
        if rng.randint(4) == 0:
            g['min_sep'] = float(hi * rng.choice([0.0, 0.1, 0.5, 0.9, 1.0, 1.3]))
    drop = int(rng.randint(len(names)))
    g.update({q: full[q] for i, q in enumerate(names) if i != drop})
    r = rng.randint(12)
    if r == 0:                                   # too few
        g.pop(list(q for q in names if q in g)[0])
    elif r == 1:                                 # too many
        g[names[drop]] = full[names[drop]]
    elif r == 2:                                 # nonsense values
        q = [x for x in g][rng.randint(len(g))]
        g[q] = int(rng.choice([0, -1, -3])) if q in INTS else float(rng.choice([0, -1, -0.5])) * full.get(q, 1)
        if bt == 'Linear' and q in ('min_sep', 'max_sep'):
            g[q] = full[q]
    elif r == 3 and 'min_sep' in g and 'max_sep' in g:
        g['min_sep'], g['max_sep'] = (g['max_sep'], g['min_sep']) if rng.randint(2) else (lo, lo)
    if dim == 3:
        for w in ('u', 'v') if bt == 'LogRUV' else ('phi',) if bt == 'LogSAS' else ():
            nn = ['n%sbins' % w, 'nphi_bins'][w == 'phi']
            ss = ['%sbin_size' % w, 'phi_bin_size'][w == 'phi']
            pu = 1.0
            top = 1.0
            if w == 'phi':
                g['phi_units'] = ['', 'rad', 'deg', 'degrees', 'hours', 'arcmin'][rng.randint(6)]
                pu, top = UNIT[g['phi_units']], np.pi
                if g['phi_units'] == '':
                    del g['phi_units']
            k = int(rng.randint(1, 5))
            a = float(rng.choice([0, 0.1, 0.2, 0.25, 0.5])) if exact else float(rng.uniform(0, 0.6))
            b = float(rng.choice([0.6, 0.75, 0.9, 1.0])) if exact else float(rng.uniform(0.65, 1))
            a, b = a * top, b * top
            s = (b - a) / k * (1 if exact or rng.randint(2) else rng.uniform(0.9, 1.4))
            sub = dict(zip([nn, ss, 'min_' + w, 'max_' + w], [k, s, a / pu * (1 if pu == 1 else 0.999999), b / pu * (1 if pu == 1 else 0.999999)]))
            m = int(rng.randint(1, 16)) if rng.randint(6) else 0
            if not m & 3:
                m |= 1 + int(rng.randint(2))       # (keep the number of bins small)
            for i, q in enumerate(sub):
                if m >> i & 1:
                    g[q] = sub[q]
            r = rng.randint(25)
            if r == 0 and 'min_' + w in g:
                g['min_' + w] = float(rng.choice([-0.1, 1.5 * top / pu]))
            elif r == 1 and 'max_' + w in g:
                g['max_' + w] = float(rng.choice([-0.1, 0, 1.01 * top / pu]))
            elif r == 2 and ss in g:
                g[ss] = -g[ss]
            elif r == 3 and nn in g:
                g[nn] = int(rng.choice([0, -2]))
        if bt == 'LogMultipole':
            g['max_n'] = int(rng.randint(0, 4))
            if rng.randint(12) == 0:
                g['max_n'] = -1
            elif rng.randint(12) == 0:
                del g['max_n']
        if rng.randint(15) == 0:
            g[['min_u', 'max_v', 'nvbins', 'ubin_size', 'max_phi', 'nphi_bins', 'phi_bin_size', 'max_n'][rng.randint(8)]] = 1
    if rng.randint(3) == 0:
        g['bin_slop'] = float(rng.choice([0, 0.01, 0.3, 1, 2.5, -1]))
    if rng.randint(3) == 0:
        g['angle_slop'] = float(rng.choice([0, 0.03, 0.2, 1]))
    if dim == 2 and rng.randint(10) == 0:
        g['min_rpar'], g['max_rpar'] = float(rng.randint(-5, 5)), float(rng.randint(-5, 5))
    if rng.randint(2):
        g['sep_units'] = sorted(UNIT)[1:][rng.randint(len(UNIT) - 1)]
    cls = C2[rng.randint(len(C2))] if dim == 2 else C3[rng.randint(3)]
    return dict(dim=dim, bt=bt, g=g, cls=cls, bogus=bool(rng.randint(25) == 0), how=['kw', 'config', 'mixed', 'str', 'repr', 'copy', 'pickle', 'none'][rng.randint(8)],
                omit=bool(rng.randint(3)), h=int(rng.randint(1 << 30)))


def cases(seed, tier):
    rng = np.random.RandomState(23000 + seed)
    return [one(rng) for _ in range(4000 if tier == 'quick' else 60000)]


def run(case):
    import treecorr as tc
    rng = np.random.RandomState(case['h'])
    g, how, dim, bt = case['g'], case['how'], case['dim'], case['bt']
    cls = corr_cls(tc, case['cls'])
    rec = dict(dim=dim, bt=bt, bogus=case['bogus'], slop0=1 if case['cls'] in SLOP1 else S(0.1), err='',
               su=S(UNIT[g.get('sep_units', '')]), pu=S(UNIT[g.get('phi_units', '')]), out={},
               g={q: (int(v) if q in INTS else S(v)) for q, v in g.items() if not q.endswith('units')})
    if how == 'repr' and any(isinstance(v, float) and not np.isfinite(v) for v in g.values()):
        return []
    kw = dict(g)
    if not (case['omit'] and bt == ('Log' if dim == 2 else 'LogSAS')):
        kw['bin_type'] = bt
    if how == 'none':
        for q in ('nbins', 'bin_size', 'min_sep', 'max_sep'):
            if not (bt == 'TwoD' and q == 'min_sep'):
                kw.setdefault(q, None)
    if how == 'str':
        kw = {q: repr(v) if not isinstance(v, str) else v for q, v in kw.items()}
    if case['bogus']:
        kw[['nbin', 'binsize', 'min_sepp', 'sepunits'][rng.randint(4)]] = 1
    try:
        with np.errstate(all='ignore'):
            if how in ('config', 'str') and not case['bogus']:
                config = dict(kw, file_name='x.fits', unused=3)
                keep = dict(config)
                c = cls(config)
                if config != keep:
                    raise AssertionError('the configuration was changed')
            elif how == 'mixed':
                config, kws = {}, {}
                for q, v in kw.items():
                    k = rng.randint(3)
                    if k != 1 or case['bogus']:
                        kws[q] = v
                    if k == 1:
                        config[q] = v
                    if k == 2 and q in g and not isinstance(v, str) and v is not None:
                        config[q] = v * 2          # (superseded by the keyword)
                c = cls(config, **kws)
            else:
                c = cls(**kw)
            if how == 'repr':
                c2 = eval(repr(c), dict(vars(tc)))
                c = c2
            elif how == 'copy':
                c = c.copy()
            elif how == 'pickle':
                c = pickle.loads(pickle.dumps(c))
    except Exception as e:
        rec['err'] = '%s: %s' % (type(e).__name__, str(e)[:80])
        if isinstance(e, AssertionError):
            rec['err'] = ''
            rec['bogus'] = True
        return [rec]
    if c.nbins > 12 or (dim == 3 and np.prod(c.data_shape) > 900):
        return []
    o = dict(nbins=int(c.nbins))
    for q in ('min_sep', 'max_sep', 'bin_size', 'bin_slop', 'b', 'angle_slop'):
        o[q] = S(getattr(c, q))
    o.update(minsep_=S(c._min_sep), maxsep_=S(c._max_sep), binsize_=S(c._bin_size))

    def arr(*names):
        for q in names:
            o[q] = SL(np.array(getattr(c, q)).ravel())
    if dim == 2:
        o['zero'] = SL(np.array(c.weight).ravel())
        arr('rnom', 'logr', 'left_edges', 'right_edges')
        if bt == 'TwoD':
            arr('dxnom', 'dynom', 'bottom_edges', 'top_edges')
    else:
        o['shape'] = [int(q) for q in np.array(c.ntri).shape]
        arr('logr1d', 'rnom1d')
        if bt == 'LogRUV':
            arr('u1d', 'v1d', 'logr', 'rnom', 'u', 'v')
            o.update(nu=int(c.nubins), nv=int(c.nvbins), usize=S(c.ubin_size), vsize=S(c.vbin_size), minu=S(c.min_u), maxu=S(c.max_u),
                     minv=S(c.min_v), maxv=S(c.max_v), bu=S(c.bu), bv=S(c.bv))
        else:
            arr('logd2', 'logd3', 'd2nom', 'd3nom')
            if bt == 'LogSAS':
                arr('phi1d', 'phi')
                o.update(nphi=int(c.nphi_bins), phisize=S(c.phi_bin_size), minphi=S(c.min_phi), maxphi=S(c.max_phi), bu=S(c.bu))
            else:
                o.update(max_n=int(c.max_n), n1d=[int(q) for q in c.n1d])
                arr('n')
    rec['out'] = o
    return [rec]
