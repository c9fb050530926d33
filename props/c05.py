"""C05: dividing catalogs into patches never changes a correlation, and every partial result is what it says."""
import numpy as np
from vt.gen import *   # noqa
from . import c01
from .pair_common import ERR, pair_record   # noqa

ID = 'C05'
TRACE = 'PatchTrace'
MODELS = [dict(module='PatchProc', cfg='PatchProc_quick.cfg', workers=2, actions=['Run', 'Pass']),
          dict(module='PatchProc', cfg='PatchProc_bad.cfg', workers=2, expect='violation'),
          dict(module='PatchProc', cfg='PatchProc_mid.cfg', workers=4, thorough_only=True),
          dict(module='PatchProc', cfg='PatchProc_deep.cfg', workers=4, thorough_only=True, timeout=5000, heap='6g')]
RULE = ('random catalogs x patch assignments (random, by position, with gaps, singletons) x list / patched / file '
        'catalogs x low_mem x global/local')


def assign(rng, c, np_):
    n = len(c['p'])
    m = rng.randint(4)
    if m == 0:
        pa = rng.randint(0, np_, n)
    elif m == 1:
        x = np.array(c['p'])[:, 0]
        pa = (np.argsort(np.argsort(x)) * np_) // max(n, 1)
    elif m == 2:                       # one big patch and singletons
        pa = np.zeros(n, int)
        k = min(np_ - 1, n - 1)
        if k > 0:
            pa[rng.choice(n, k, replace=False)] = np.arange(1, k + 1)
    else:                              # a gap: some patch numbers unused
        used = rng.choice(np_, max(1, np_ - 1), replace=False)
        pa = used[rng.randint(0, len(used), n)]
    return [int(x) for x in pa]


def patched(rng, classes, **kw):
    case = c01.one(rng, classes, exact=True, **kw)
    # (the projection direction under Periodic is a known finding of C02, not the subject here)
    while len(case['c1']['p']) < 2 or (case['kw']['metric'] == 'Periodic' and not set(case['cls']) <= set('NKZ')):
        case = c01.one(rng, classes, exact=True, **kw)
    if 'min_rpar' in case['kw'] or 'max_rpar' in case['kw']:
        # (line-of-sight limits on catalogs that extend over large angles are a known finding)
        if case['kw']['metric'] == 'Euclidean':
            for c in (case['c1'], case['c2']):
                if c:
                    cen = case['c1']['p'][0]
                    c['p'] = [[cen[0] + 0.05 * (p[0] - cen[0]), cen[1] + 0.05 * (p[1] - cen[1]), p[2]] for p in c['p']]
        else:
            case['kw'].pop('min_rpar', None)
            case['kw'].pop('max_rpar', None)
    np_ = int(rng.choice([2, 3, 4, 6]))
    case['pa1'] = assign(rng, case['c1'], np_)
    if case['c2'] is not None:
        case['pa2'] = assign(rng, case['c2'], np_)
    # both catalogs have to agree on the number of patches
    n1 = max(case['pa1']) + 1
    how = rng.randint(6)
    if case['c2'] is not None:
        n2 = max(case['pa2']) + 1
        if n1 != n2 and 1 not in (n1, n2):
            case['pa2'][0] = n1 - 1
            case['pa2'] = [min(x, n1 - 1) for x in case['pa2']]
        if how == 0:
            case['pa2'] = [0] * len(case['pa2'])
        elif how == 1:
            case['pa1'] = [0] * len(case['pa1'])
    if case['c2'] is not None and len(case['pa2']) == 1:
        case['pa2'] = [0]
    case['n1'] = max(case['pa1']) + 1
    case['n2'] = max(case['pa2']) + 1 if case['c2'] is not None else case['n1']
    if True:    # every patch needs a positive total weight
        for c in (case['c1'], case['c2']):
            if c:
                c['w'] = [abs(x) for x in c['w']]
    case['mode'] = ['patch', 'patch', 'list', 'file'][rng.randint(4)]
    case['low_mem'] = bool(rng.randint(2))
    metric = case['kw'].get('metric')
    local = rng.randint(3) == 0
    if metric in ('Rlens', 'OldRperp', 'Rperp', 'FisherRperp', 'Arc') and case['c1']['coords'] in ('3d', 'sphere3') \
            or 'min_rpar' in case['kw'] or 'max_rpar' in case['kw']:
        local = False
    if case['mode'] == 'file' and case['low_mem']:
        # patches that are loaded from a file on demand have to exist
        for pa in (case['pa1'], case.get('pa2') or [0]):
            if len(set(pa)) != max(pa) + 1:
                case['low_mem'] = False
    case['local'] = bool(local) and (case['n1'] > 1 or case['n2'] > 1)
    return case


def cases(seed, tier):
    rng = np.random.RandomState(5000 + seed)
    n = 2400 if tier == 'quick' else 30000
    return [patched(rng, ['NN'] if i % 3 == 0 else CLASSES, big=(i % 11 == 0)) for i in range(n)] + \
        c01.known('c05_rpar')


key = c01.key


def build_input(tc, c, letter, pa, mode, low_mem, tag):
    n = max(pa) + 1
    if mode == 'list':
        out = []
        for p in range(n):
            idx = [i for i in range(len(pa)) if pa[i] == p]
            if not idx:
                continue
            sub = dict(c, p=[c['p'][i] for i in idx], w=[c['w'][i] for i in idx], v=[c['v'][i] for i in idx])
            out.append(mk_cat(tc, sub, letter, patch=p, npatch=n) if low_mem else mk_cat(tc, sub, letter))
        return out
    cat = mk_cat(tc, c, letter, patch=np.array(pa) if n > 1 and len(pa) > 1 else None)
    if mode == 'file' and n > 1:
        fn = tag + '.fits'
        cat.write(fn)
        k = dict(x_col='x', y_col='y') if c['coords'] in ('flat', '3d') else \
            dict(ra_col='ra', dec_col='dec', ra_units='rad', dec_units='rad')
        if c['coords'] == '3d':
            k['z_col'] = 'z'
        if c['coords'] == 'sphere3':
            k['r_col'] = 'r'
        k['w_col'] = 'w'
        if letter == 'K':
            k['k_col'] = 'k'
        elif letter in 'ZVGTQ':
            k[letter.lower() + '1_col'] = letter.lower() + '1'
            k[letter.lower() + '2_col'] = letter.lower() + '2'
        cat = tc.Catalog(fn, patch_col='patch', **k)
    return cat


def entry(ij, c, name):
    e = dict(i=int(ij[0]), j=int(ij[1]), npairs=SL(c.npairs), weight=SL(c.weight), xi=[], xi_im=[], xim=[], xim_im=[],
             tot=[S(c.tot)] if name == 'NN' else [])
    if name != 'NN':
        e['xi'], e['xi_im'], e['xim'], e['xim_im'] = xi_arrays(c, name)
    return e


def process(tc, case, tag=''):
    name = case['cls']
    corr = corr_cls(tc, name)(**case['kw'])
    mode, lm = case['mode'], case['low_mem']
    # (a list stands for patches 0..n-1; only used when no patch is missing)
    a1 = build_input(tc, case['c1'], name[0], case['pa1'], mode, lm, tag + 'a')
    pm = 'local' if case['local'] else 'global'
    if case['auto']:
        corr.process(a1, num_threads=case.get('nt', 1), low_mem=lm, patch_method=pm)
    else:
        a2 = build_input(tc, case['c2'], name[1], case['pa2'], mode, lm, tag + 'b')
        corr.process(a1, a2, num_threads=case.get('nt', 1), low_mem=lm, patch_method=pm)
    return corr


def run(case):
    import treecorr as tc
    case = dict(case)
    if case['mode'] == 'list' and any(len(set(p)) != max(p) + 1 for p in (case['pa1'], case.get('pa2') or [0])):
        case['mode'] = 'patch'
    corr = process(tc, case)
    name = case['cls']
    rec = pair_record(case, corr)
    rec['kind'] = 'patched'
    for i, p in enumerate(case['pa1']):
        rec['c1'][i]['patch'] = p
    if case['c2'] is not None:
        for i, p in enumerate(case['pa2']):
            rec['c2'][i]['patch'] = p
    res = corr.results
    rec.update(local=case['local'], n1=case['n1'], n2=case['n2'], nopatch=(case['n1'] == 1 and case['n2'] == 1),
               results=[entry(ij, c, name) for ij, c in sorted(res.items())])
    if case['local']:
        rec['skipim'] = True
    return [rec]
