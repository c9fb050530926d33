"""C22: the multipole coefficients are the Fourier sums over all triangles, and convert to angle bins."""
import numpy as np
from vt.gen import *   # noqa
from .tri_common import *   # noqa
from . import c01, c20

ID = 'C22'
TRACE = 'MulTrace'
MODELS = []
RULE = ('random NNN/KKK/GGG catalogs x LogMultipole (max_n 0-6), compared with all triangles; toSAS of them (random phi ranges, bins, '
        'patches) and default LogSAS runs compared with the synthesis of the coefficients')
ERR = dict(err='', kind='triangles')


def cases(seed, tier):
    rng = np.random.RandomState(22000 + seed)
    n = 1800 if tier == 'quick' else 30000
    out = []
    for i in range(n):
        case = c20.one(rng, ('LogMultipole',), nmax=7)
        while any(len(set(map(tuple, c['p']))) < len(c['p']) for c in case['cats']):
            case = c20.one(rng, ('LogMultipole',), nmax=7)    # coincident objects: a known finding
        if case['kw']['metric'] == 'Periodic':
            case['kw']['max_n'] = 0       # the phases use unwrapped positions: a known finding
            if case['cls'] == 'GGG':
                case['cls'] = 'KKK'
        case['kind'] = ['triangles', 'triangles', 'sas', 'default'][rng.randint(4)]
        if case['kind'] != 'triangles':
            if case['mode'] in (12, 21, 3) and rng.randint(2):
                case['mode'], case['cats'] = 0, case['cats'][:1]
            k = {}
            r = rng.randint(4)
            if r == 0:
                k['nphi_bins'] = int(rng.randint(1, 9))
            elif r == 1:
                a = rng.uniform(0, 2)
                k.update(min_phi=float(a), max_phi=float(rng.uniform(a + .3, np.pi)), nphi_bins=int(rng.randint(1, 6)))
            elif r == 2:
                k['phi_bin_size'] = float(rng.uniform(0.3, 1.5))
            if r and rng.randint(2):
                u = ['deg', 'rad'][rng.randint(2)]
                if u == 'deg':
                    for x in ('min_phi', 'max_phi', 'phi_bin_size'):
                        if x in k:
                            k[x] = float(np.degrees(k[x])) * (1 - 1e-12)
                k['phi_units'] = u
            case['sas'] = k
            if (case['kind'] == 'default' or case['kw']['max_n'] == 0) and 'nphi_bins' not in k and 'phi_bin_size' not in k:
                k['nphi_bins'] = int(rng.randint(1, 6))
            if case['kind'] == 'default':
                case['max_n'] = [None, 0, 1][rng.randint(3)]
            if rng.randint(3) == 0 and all(len(c['p']) > 2 and min(c['w']) > 0 for c in case['cats']):
                case['npatch'] = int(rng.randint(2, 4))
                for c in case['cats']:
                    c['patch'] = [i if i < case['npatch'] else int(rng.randint(0, case['npatch'])) for i in range(len(c['p']))]
        out.append(case)
    return out + c01.known('c22_periodic') + c01.known('c22_coincident')


def coef(c, name, K):
    o = c20.tri_out(c, name)
    return {k: v for k, v in o.items() if k not in ('meand1', 'meanlogd1')}


def sas_record(case, mul, sas, results=None, whole=None):
    L = case['cls'][0]
    o = {}
    for n in ('ntri', 'weight', 'meand1', 'meand2', 'meand3', 'meanlogd1', 'meanlogd2', 'meanlogd3', 'meanphi'):
        o[n] = SL(getattr(sas, n))
    for n in ([] if L == 'N' else ['zeta'] if L == 'K' else ['gam0', 'gam1', 'gam2', 'gam3']):
        a = np.asarray(getattr(sas, n))
        o[n] = SL(a.real)
        if L == 'G':
            o[n + '_im'] = SL(a.imag)
    m = coef(mul, case['cls'], 0)
    return dict(err='', kind='sas', letter=L, nbins=mul.nbins, maxn=mul.max_n, nphi=sas.nphi_bins, minphi=S(sas.min_phi),
                phibs=S(sas.phi_bin_size), phiunit=S(sas._phi_units), mul=m, sas=o, unnorm=whole is not None,
                whole=m if whole is None else coef(whole, case['cls'], 0))


def run(case):
    import treecorr as tc
    if case['kind'] == 'triangles':
        corr = run3(tc, case)
        return [dict(c20.tri_record(case, corr), kind='triangles')]
    L = case['cls'][0]
    cats = [mk_cat(tc, c, L, **(dict(patch=np.array(c['patch']), npatch=case['npatch']) if 'patch' in c else {})) for c in case['cats']]
    if case['kind'] == 'sas':
        mul = run3(tc, case, cats=cats)
        sas = mul.toSAS(**case['sas'])
    else:
        kw = dict(case['kw'], bin_type='LogSAS')
        c2 = dict(case, kw=kw)
        mx = kw.pop('max_n')
        c2.pop('max_n')
        kw.update(case['sas'])
        if case['max_n'] == 0:
            kw['max_n'] = mx
        elif case['max_n']:
            c2.update(algo='multipole', max_n=mx)
        sas = run3(tc, c2, cats=cats)
        n = case['max_n'] if case['max_n'] is not None else None
        # the coefficients it has to have used: max_n of the constructor, or 2pi/phi_bin_size
        kw = dict(case['kw'])
        kw['max_n'] = kw['max_n'] if n is not None else int(2 * np.pi / sas.phi_bin_size)
        mul = run3(tc, dict(case, kw=kw), cats=cats)
    recs = [sas_record(case, mul, sas)]
    for k in list(sas.results)[:3]:
        recs.append(sas_record(case, mul.results[k], sas.results[k], whole=mul))
    return recs


def key(case, rec, clauses):
    return 'periodic-triangle-directions' if clauses == '{"periodic_raw"}' else case.get('known', '')
