"""C21: patches never change a three-point correlation, and every partial result is what it says."""
import numpy as np
from vt.gen import *   # noqa
from . import c01, c05, c20
from .tri_common import *   # noqa
from .c20 import ERR, key, tri_record, tri_out   # noqa

ID = 'C21'
TRACE = 'TriPatchTrace'
MODELS = []
RULE = ('random NNN/KKK/GGG data (flat, sky, 3d; Euclidean, Arc, Periodic) x LogRUV/LogSAS/LogMultipole x auto / two / three catalogs, '
        'ordered or not x patch assignments (random, by position, gaps, singletons; one catalog undivided) x list / patched / file catalogs '
        'x low_mem x global/local')
HEAP = '2g'


def one(rng, i):
    case = c20.one(rng, ('LogRUV', 'LogSAS', 'LogMultipole', 'LogMultipole'), nmax=9)
    def known(case):        # known findings of C20 and C22, not the subject here
        multi = case['kw']['bin_type'] == 'LogMultipole'
        return case['kw']['metric'] == 'Periodic' and (case['cls'] == 'GGG' or multi) or \
            multi and any(len(set(map(tuple, c['p']))) < len(c['p']) for c in case['cats'])
    while known(case):
        case = c20.one(rng, ('LogRUV', 'LogSAS', 'LogMultipole', 'LogMultipole'), nmax=9)
    kw = case['kw']
    if kw['bin_type'] == 'LogMultipole':
        kw['max_n'] = min(kw['max_n'], 3)
        kw['nbins'] = min(kw['nbins'], 2)
    np_ = int(rng.choice([2, 3, 3, 4, 6]))
    for c in case['cats']:
        c['w'] = [abs(x) for x in c['w']]
    if kw['metric'] == 'Periodic' and rng.randint(2):
        # two clumps at opposite edges of the box
        pa = None
        for c in case['cats']:
            n = len(c['p'])
            side = rng.randint(0, 2, n)
            x = np.where(side == 0, rng.uniform(0, 0.7, n), kw.get('xperiod', kw.get('period', 0)) - rng.uniform(0, 0.7, n))
            c['p'] = [[float(a)] + [float(0.3 * y) for y in p[1:]] for a, p in zip(x, c['p'])]
            c['side'] = [int(s) for s in side]
    case['pa'] = []
    for c in case['cats']:
        pa = c05.assign(rng, c, np_)
        if 'side' in c:
            pa = c.pop('side')
        case['pa'].append(pa)
    full = max(max(p) for p in case['pa']) + 1
    for q, pa in enumerate(case['pa']):
        if len(pa) == 1 or case['mode'] and rng.randint(6) == 0:
            case['pa'][q] = [0] * len(pa)
        elif max(pa) + 1 not in (1, full):
            pa[0] = full - 1
    ns = [max(p) + 1 for p in case['pa']]
    case['input'] = ['patch', 'patch', 'list', 'file'][rng.randint(4)]
    case['low_mem'] = bool(rng.randint(2))
    if any(len(set(p)) != max(p) + 1 for p in case['pa']):
        case['input'] = 'patch'
    case['local'] = bool(rng.randint(2)) and max(ns) > 1
    if case['algo'] if 'algo' in case else False:
        case.pop('algo')
    if kw['bin_type'] == 'LogSAS':
        case['algo'] = 'triangle'
    if kw['bin_type'] == 'LogMultipole':
        case['local'] = max(ns) > 1     # (the other method is refused)
    return case


def cases(seed, tier):
    rng = np.random.RandomState(21000 + seed)
    n = 1500 if tier == 'quick' else 25000
    return [one(rng, i) for i in range(n)]


def part(ijk, c, name):
    c = c.copy()
    o = tri_out(c, name)
    for n in ('meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3'):
        if c.bin_type == 'LogMultipole':
            o[n] = []
    return dict(i=int(ijk[0]), j=int(ijk[1]), k=int(ijk[2]), out=o, tot=[S(c.tot)] if name == 'NNN' else [])


def run(case):
    import treecorr as tc
    name = case['cls']
    kw = dict(case['kw'])
    corr = corr_cls(tc, name)(**kw)
    mode = case['input']
    cats = [c05.build_input(tc, c, name[0], pa, mode, case['low_mem'], 'f%d' % q) for q, (c, pa) in enumerate(zip(case['cats'], case['pa']))]
    pk = dict(num_threads=case.get('nt', 1), low_mem=case['low_mem'])
    if max(max(p) for p in case['pa']) > 0:
        pk['patch_method'] = 'local' if case['local'] else 'global'
    if case.get('algo'):
        pk['algo'] = case['algo']
    if case['mode'] != 0:
        pk['ordered'] = case['ordered']
    corr.process(*cats, **pk)
    rec = tri_record(case, corr)
    allp = [p for pa in case['pa'] for p in pa]
    for q, p in enumerate(allp):
        rec['pool'][q]['patch'] = p
    rec.update(local=case['local'], nopatch=max(allp) == 0, results=[part(k, c, name) for k, c in sorted(corr.results.items())])
    return [rec]
