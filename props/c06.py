"""C06: processing with several MPI ranks equals serial processing."""
import numpy as np
from vt.gen import *   # noqa
from vt.mpi import World
from . import c01, c05, c21
from .tri_common import out3

ID = 'C06'
TRACE = 'MpiTrace'
ACT = ['Work', 'Send', 'Recv', 'Received', 'Again']
MODELS = [dict(module='MpiProc', cfg='MpiProc_two.cfg', workers=2, actions=['Work', 'Send', 'Recv', 'Received']),
          dict(module='MpiProc', cfg='MpiProc_three.cfg', workers=2, actions=['Work', 'Send', 'Recv', 'Received']),
          dict(module='MpiProc', cfg='MpiProc_rounds.cfg', workers=2, actions=ACT),
          dict(module='MpiProc', cfg='MpiProc_rendezvous.cfg', workers=2, actions=ACT + ['Sent']),
          dict(module='MpiProc', cfg='MpiProc_carry.cfg', workers=2, expect='violation'),
          dict(module='MpiProc', cfg='MpiProc_deep.cfg', workers=4, thorough_only=True)]
RULE = ('random two- and three-point correlations of divided catalogs (auto, cross, one side undivided, gaps, lists of single patches, files '
        'loaded on demand; global/local) x 1-7 ranks x 1-3 rounds (initialize=False) x schedules of a simulated communicator '
        '(buffered or rendezvous sends), and covariances of several statistics computed by 1-7 ranks')
ASSUMPTIONS = ['simulated communicator: ranks are threads of one process of which one runs at a time, switching at communications']
ERR = dict(err='', ref={}, vars=[], rtol='1e-9', atol='1e-9', exact=[], nontrivial=False, events=[], size=1, rounds=1, kind='', local=False,
           n=[1, 1, 1], left=0)


def common(rng, case, np_):
    case['size'] = int([1, 2, 2, 3, 3, 4, 5, 7][rng.randint(8)])
    case['rendezvous'] = bool(rng.randint(2))
    case['seed'] = int(rng.randint(1 << 30))
    case['var'] = ['shot', 'jackknife', 'sample', 'marked_bootstrap', 'bootstrap'][rng.randint(5)]
    case['rounds'] = int([1, 1, 1, 2, 3][rng.randint(5)])
    if case['rounds'] > 1:
        # later rounds repeat (some of) the same data, so that patch pairs are found again
        case['again'] = [[int(x) for x in sorted(rng.permutation(case['rounds'])[:2])]]
    return case


def widen(rng, case):
    """more objects and patches, for divisions among ranks that do not come out even"""
    c, np_ = case['c1'], int(rng.randint(4, 12))
    n = len(c['p'])
    take = [int(x) for x in rng.randint(n, size=2 * np_)]
    for k in c:
        if isinstance(c[k], list) and len(c[k]) == n:
            c[k] = [c[k][t] for t in take]
    c['p'] = [[float(p[0] * (1 + 0.01 * rng.randn()))] + list(p[1:]) for p in c['p']]
    case['pa1'] = [int(x) for x in list(rng.permutation(np_)) + list(rng.randint(np_, size=np_))]
    case['n1'] = case['n2'] = np_


def two(rng, i):
    while True:
        case = c05.patched(rng, ['NN'] if i % 5 == 0 else CLASSES)
        if max(case['n1'], case['n2']) > 1 and 'known' not in case and len(case['c1']['p']) >= 2:
            break
    if i % 3 == 1 and case['c2'] is None:
        widen(rng, case)
    case['what'] = 'two'
    case['mode'] = ['patch', 'patch', 'list', 'plist', 'file'][rng.randint(5)]
    if case['mode'] == 'list' and case['c2'] is not None and any(len(set(case[p])) != max(case[p]) + 1 for p in ('pa1', 'pa2')):
        case['mode'] = 'plist'       # (a list of catalogs without patch numbers cannot have gaps)
    if case['mode'] == 'file' and case['low_mem']:
        for pa in (case['pa1'], case.get('pa2') or [0]):
            if len(set(pa)) != max(pa) + 1:
                case['low_mem'] = False
    return common(rng, case, max(case['n1'], case['n2']))


def three(rng, i):
    while True:
        case = c21.one(rng, i)
        if max(max(p) for p in case['pa']) > 0:
            break
    case['what'] = 'three'
    return common(rng, case, 0)


def cov(rng, i):
    np_ = int(rng.choice([2, 3, 4, 5]))
    case = dict(what='cov', np=np_, cls=[['NK', 'GG', 'KK', 'NG', 'KG', 'KKK'][k] for k in rng.permutation(6)[:rng.randint(1, 4)]],
                method=['jackknife', 'sample', 'bootstrap', 'marked_bootstrap', 'shot'][rng.randint(5)], cats={}, pa=[])
    n = int(rng.randint(max(6, np_ + 2), 18))
    case['cat'] = cat(rng, n, 'flat', wmode='pos', scale=3.0)
    pa = rng.randint(0, np_, n)
    pa[:np_] = np.arange(np_)
    case['pa'] = [int(x) for x in pa]
    case['design'] = bool(rng.randint(2))
    case['func'] = bool(rng.randint(2))
    case['num_bootstrap'] = int(rng.randint(2, 12))
    case = common(rng, case, np_)
    case['rounds'] = 1
    case.pop('again', None)
    return case


def cases(seed, tier):
    rng = np.random.RandomState(6000 + seed)
    n = 900 if tier == 'quick' else 12000
    out = [three(rng, i) if i % 4 == 3 else cov(rng, i) if i % 8 == 2 else two(rng, i) for i in range(n)]
    return [out[i] for i in rng.permutation(n)]


def flat2(c, name, auto):
    o = dict(npairs=SL(c.npairs), weight=SL(c.weight), meanr=SL(c.meanr * c.weight), meanlogr=SL(c.meanlogr * c.weight))
    for n, a in zip(('xi', 'xi_im', 'xim', 'xim_im'), xi_arrays(c, name)):
        o[n] = a
    if auto and name[0] not in 'NK':
        o['xi_im'] = []        # depends on which object of a pair comes first
    if name == 'NN':
        o['tot'] = [S(c.tot)]
    return o


def flat(c, name, three, auto):
    o = out3(c, name, sums=True) if three else flat2(c, name, auto)
    for n in list(o):
        if n + '_im' in o:      # one number: compared at the scale of the larger part
            o[n] = o[n] + o.pop(n + '_im')
    return o


def output(c, name, three, auto):
    o = flat(c, name, three, auto)
    if three and name == 'NNN':
        o['tot'] = [S(c.tot)]
    ks = sorted(c.results)
    o['keys'] = SL([float(x) for k in ks for x in k])
    w = [c.results[k] for k in ks]
    o['p_weight'] = SL(np.concatenate([np.ravel(np.abs(p.weight)) for p in w]) if w else [])
    o['p_n'] = SL(np.concatenate([np.ravel(p.ntri if three else p.npairs) for p in w]) if w else [])
    if w and name not in ('NN', 'NNN'):
        v = np.concatenate([np.ravel(p.getStat()) for p in w])
        o['p_stat'] = SL(np.real(v)) + SL(np.imag(v))
    if name in ('NN', 'NNN'):
        o['p_tot'] = SL([float(p.tot) for p in w])
    else:
        try:
            cv = np.ravel(c.cov)
        except (RuntimeError, ValueError):      # (sample variances are refused when a patch has no data; others when there are no pairs)
            cv = np.zeros(0)
        o['cov'] = SL(np.real(cv)) + SL(np.imag(cv))
    return o


def build(tc, c, letter, pa, mode, low_mem, tag):
    if mode == 'plist':
        out = []
        for p in sorted(set(pa)):
            idx = [i for i in range(len(pa)) if pa[i] == p]
            sub = dict(c, p=[c['p'][i] for i in idx], w=[c['w'][i] for i in idx], v=[c['v'][i] for i in idx])
            out.append(mk_cat(tc, sub, letter, patch=p, npatch=max(pa) + 1))
        return out
    return c05.build_input(tc, c, letter, pa, mode, low_mem, tag)


def shifted(c, k):
    """the same objects with other values, for another round"""
    if k == 0:
        return c
    return dict(c, v=[[x * (1 + 0.25 * k) if not isinstance(x, list) else [y * (1 + .25 * k) for y in x] for x in v] if isinstance(v, list)
                      else v * (1 + 0.25 * k) for v in c['v']], w=[w * (1 + 0.5 * k) for w in c['w']])


def calculate(tc, case, comm, tag):
    """what every rank does -> (object, letters)"""
    name = case['cls']
    kw = dict(case['kw'])
    if case['var'] != 'shot' and name not in ('NN', 'NNN'):
        kw.update(var_method=case['var'], num_bootstrap=5)
    if 'bootstrap' in kw.get('var_method', ''):
        kw['rng'] = np.random.RandomState(case['seed'])
    corr = corr_cls(tc, name)(**kw)
    three = case['what'] == 'three'
    for k in range(case['rounds']):
        pk = dict(num_threads=1, low_mem=case['low_mem'], initialize=k == 0, finalize=k == case['rounds'] - 1, comm=comm)
        if three:
            cats = [c05.build_input(tc, shifted(c, k), name[0], pa, case['input'], case['low_mem'], '%s%d_%d' % (tag, q, k))
                    for q, (c, pa) in enumerate(zip(case['cats'], case['pa']))]
            pk['patch_method'] = 'local' if case['local'] else 'global'
            if case.get('algo'):
                pk['algo'] = case['algo']
            if case['mode'] != 0:
                pk['ordered'] = case['ordered']
        else:
            cats = [build(tc, shifted(case['c1'], k), name[0], case['pa1'], case['mode'], case['low_mem'], '%s1_%d' % (tag, k))]
            if case['c2'] is not None:
                cats.append(build(tc, shifted(case['c2'], k), name[1], case['pa2'], case['mode'], case['low_mem'], '%s2_%d' % (tag, k)))
            pk['patch_method'] = 'local' if case['local'] else 'global'
        corr.process(*cats, **pk)
    return corr


def cov_corrs(tc, case):
    out = []
    for name in case['cls']:
        kw = dict(rng=np.random.RandomState(case['seed']), num_bootstrap=case['num_bootstrap'])
        if len(name) == 3:
            c = corr_cls(tc, name)(min_sep=0.5, max_sep=4.5, nbins=2, nubins=1, nvbins=1, bin_type='LogRUV', **kw)
        else:
            c = corr_cls(tc, name)(min_sep=0.5, max_sep=6, nbins=3, **kw)
        pa = np.array(case['pa'])
        a = [mk_cat(tc, case['cat'], L, patch=pa) for L in name]
        c.process(a[0], num_threads=1) if len(set(name)) == 1 else c.process(a[0], a[1], num_threads=1)
        out.append(c)
    return out


def cov_out(tc, case, comm):
    cs = cov_corrs(tc, case)
    func = (lambda corrs: np.concatenate([np.ravel(c.getStat()) * 2 + 1 for c in corrs])) if case['func'] and case['method'] != 'shot' else None
    o = {}
    cv = tc.estimate_multi_cov(cs, case['method'], func=func, comm=comm)
    o['cov'] = SL(np.ravel(np.real(cv))) + SL(np.ravel(np.imag(cv)))
    if case['design'] and case['method'] != 'shot':
        cs = cov_corrs(tc, case)
        v, w = tc.build_multi_cov_design_matrix(cs, case['method'], func=func, comm=comm)
        o['v'], o['w'] = SL(np.ravel(np.real(v))), SL(np.ravel(w))
    if len(cs) == 1:
        cs = cov_corrs(tc, case)
        f1 = (lambda c: np.ravel(c.getStat()) * 2 + 1) if func else None
        o['cov1'] = SL(np.ravel(np.real(cs[0].estimate_cov(case['method'], func=f1, comm=comm))))
    return o


def run(case):
    import treecorr as tc
    w = World(case['size'], case['seed'], case['rendezvous'])
    if case['what'] == 'cov':
        try:
            ref = cov_out(tc, case, None)
        except RuntimeError as e:
            if 'sample variance' in str(e):     # (refused when a patch has no data)
                return []
            raise
        res = w.run(lambda comm: cov_out(tc, case, comm))
        vs = [dict(name='rank%d' % r, err=e, out=o if e == '' else {}) for r, (o, e) in enumerate(res)]
        return [dict(ERR, ref=ref, vars=vs, nontrivial=True, kind='cov', size=case['size'], events=w.events, left=w.left())]
    three = case['what'] == 'three'
    name = case['cls']
    auto = not three and case['c2'] is None
    c = calculate(tc, case, None, 's')
    ref = output(c, name, three, auto)

    def work(comm):
        c = calculate(tc, case, comm, 'p')
        return output(c, name, three, auto) if comm.rank == 0 else {}
    res = w.run(work)
    vs = []
    for r, (o, e) in enumerate(res):
        if e or r == 0:
            vs.append(dict(name='rank%d' % r, err=e, out=o or {}))
    if three:
        kind = {0: 'auto3', 12: 'cross12', 21: 'cross12', 3: 'cross3'}[case['mode']]
        n = [max(p) + 1 for p in case['pa']]
    else:
        kind = 'auto2' if case['c2'] is None else 'cross2'
        n = [case['n1'], case['n2']]
    n = (n + n[-1:] * 3)[:3]
    return [dict(ERR, ref=ref, vars=vs, nontrivial=bool(np.any(c.weight)), kind=kind, local=case['local'], n=n, size=case['size'],
                 rounds=case['rounds'], events=w.events, left=w.left())]
