"""C07: covariance estimates equal their definitions over the patches."""
import numpy as np
from vt.gen import *   # noqa
from . import c05
from .pair_common import ERR, pair_record   # noqa

ID = 'C07'
TRACE = 'CovTrace'
MODELS = []
RULE = ('patched catalogs (as C05, including empty and single-object patches, one-sided patches, local selection) x '
        'method x statistic (default, weights, counts, imaginary part) x 1-3 stacked correlations')
METHODS = ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap']


class Rec:
    """A random generator that records every array it hands out."""

    def __init__(self, seed):
        self._r = np.random.RandomState(seed)
        self.log = []

    def __getattr__(self, name):
        f = getattr(self._r, name)

        def g(*a, **k):
            out = f(*a, **k)
            self.log.extend(int(x) for x in np.ravel(out))
            return out
        return g


def cases(seed, tier):
    rng = np.random.RandomState(7000 + seed)
    n = 1500 if tier == 'quick' else 24000
    out = []
    for i in range(n):
        classes = ['NN'] if i % 8 == 0 else CLASSES[1:]
        case = c05.patched(rng, classes, wmodes=('pos', 'pos', 'unit'))
        while case['n1'] == 1 and case['n2'] == 1 or (case['local'] and case['n1'] == 1) or \
                (case['kw']['bin_type'] == 'TwoD' and case['kw']['nbins' if 'nbins' in case['kw'] else 'max_sep'] > 4):
            case = c05.patched(rng, classes, wmodes=('pos', 'pos', 'unit'))
        case['mode'] = ['patch', 'patch', 'patch', 'list', 'file'][rng.randint(5)] if case['mode'] == 'patch' else case['mode']
        case['method'] = METHODS[i % 4] if i % 9 else 'shot'
        if case['method'] in ('shot', 'sample') and case['cls'] == 'NN':
            case['method'] = 'jackknife'      # (NN has no weights of its own: C08)
        case['func'] = ['stat', 'stat', 'stat', 'weight', 'npairs', 'im'][rng.randint(6)]
        if case['cls'] == 'NN':
            case['func'] = ['weight', 'npairs'][rng.randint(2)]
        if case['func'] == 'im' and (case['cls'] in ('NK', 'KK') or (case['auto'] and case['cls'][0] not in 'NK')):
            case['func'] = 'stat'
        if case['method'] == 'shot':
            case['func'] = 'stat'
        case['nboot'] = int(rng.randint(2, 6))
        case['more'] = []
        if i % 3 == 0 and case['cls'] != 'NN' and not case['local']:
            for _ in range(rng.randint(1, 3)):
                # further correlations over the same catalogs, same letters (the catalogs carry one field each)
                opts = ['same']
                if not case['auto'] and case['cls'][0] != 'N' and case['n1'] > 1 and case['kw']['metric'] != 'Rlens' \
                        and 'min_rpar' not in case['kw'] and 'max_rpar' not in case['kw'] and case['n2'] in (1, case['n1']):
                    opts.append('auto1')
                case['more'].append(dict(kind=opts[rng.randint(len(opts))], nbins=int(rng.randint(1, 4)),
                                         nboot=int(rng.randint(2, 6))))
        if case['func'] == 'im' and any(m['kind'] == 'auto1' for m in case['more']):
            case['func'] = 'stat'
        case['seed'] = int(rng.randint(1 << 30))
        case['via'] = ['estimate', 'attr', 'multi'][rng.randint(3)] if not case['more'] else 'multi'
        if case['func'] != 'stat' and case['via'] == 'attr':
            case['via'] = 'estimate'
        out.append(case)
    return out


FUNC = dict(weight=lambda c: c.weight.ravel(), npairs=lambda c: c.npairs.ravel(),
            im=lambda c: (c.xi_im if hasattr(c, 'xi_im') else c.xip_im).ravel())


def snapshot(c, name):
    return [c.npairs.copy(), c.weight.copy(), c.meanr.copy(), c.meanlogr.copy()] + \
        ([] if name == 'NN' else [x.copy() for x in (c._xi1, c._xi2, c._xi3, c._xi4)])


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def run(case):
    import treecorr as tc
    case = dict(case)
    case['kw'] = dict(case['kw'])
    name = case['cls']
    for pa in (case['pa1'], case.get('pa2') or [0]):
        if len(set(pa)) != max(pa) + 1 and case['mode'] == 'list':
            case['mode'] = 'patch'
        if len(set(pa)) != max(pa) + 1 and case['mode'] == 'file':
            case['low_mem'] = False
    case['kw'].update(var_method=case['method'], num_bootstrap=case['nboot'])
    specs = [dict(case)]
    for m in case['more']:
        c = dict(case)
        c['kw'] = dict(case['kw'], num_bootstrap=m['nboot'])
        if case['kw']['bin_type'] != 'TwoD':
            for k in ('bin_size', 'nbins'):
                c['kw'].pop(k, None)
            b = dict(case['kw'])
            if 'min_sep' in b and 'max_sep' in b:
                c['kw']['nbins'] = m['nbins']
            else:
                c['kw'] = dict(b, num_bootstrap=m['nboot'])
        if m['kind'] == 'auto1':
            c.update(cls=name[0] * 2, auto=True, c2=None, n2=case['n1'])
        specs.append(c)
    # (bootstrap draws come from the generator of the first correlation)
    a1 = c05.build_input(tc, case['c1'], name[0], case['pa1'], case['mode'], case['low_mem'], 'a')
    a2 = None if case['auto'] else c05.build_input(tc, case['c2'], name[1], case['pa2'], case['mode'], case['low_mem'], 'b')
    corrs = []
    for s in specs:
        kw = dict(s['kw'])
        c = corr_cls(tc, s['cls'])(rng=Rec(case['seed']), **kw)
        args = (a1,) if s['auto'] else (a1, a2)
        c.process(*args, num_threads=1, low_mem=case['low_mem'], patch_method='local' if case['local'] else 'global')
        corrs.append(c)
    rec = dict(kind=case['method'], method=case['method'], func=case['func'], np=max(case['n1'], case['n2']),
               nboot=max([case['nboot']] + [m['nboot'] for m in case['more']]), raised=False, corrs=[], v=[], w=[], C=[],
               draws=[], shot=[], unchanged=True, varok=True)
    for s, c in zip(specs, corrs):
        sub = pair_record(s, c)
        sub.update(local=s['local'], n1=s['n1'], n2=s['n2'] if not s['auto'] else s['n1'])
        sub['weight'] = sub['out']['weight']
        for k in ('out', 'tot', 'kind'):
            del sub[k]
        for q, p in zip(sub['c1'], s['pa1']):
            q['patch'] = p
        if not s['auto']:
            for q, p in zip(sub['c2'], s['pa2']):
                q['patch'] = p
        rec['corrs'].append(sub)
    before = [snapshot(c, s['cls']) for c, s in zip(corrs, specs)]
    log = corrs[0].rng.log
    f1 = FUNC.get(case['func'])
    fm = None if f1 is None else (lambda cs: np.concatenate([f1(c) for c in cs]))
    if case['method'] == 'shot':
        try:
            sh = tc.estimate_multi_cov(corrs, 'shot') if case['via'] == 'multi' else corrs[0].estimate_cov('shot')
            rec['shot'] = SL(sh)
            if case['via'] == 'attr' and not np.array_equal(corrs[0].cov, np.diag(sh)):
                rec['varok'] = False
        except Exception as e:
            rec['raised'] = True
    else:
        for c in corrs:
            c.rng._r.seed(case['seed'])
        del log[:]
        if case['via'] == 'multi':
            v, w = tc.build_multi_cov_design_matrix(corrs, case['method'], func=fm)
        else:
            v, w = corrs[0].build_cov_design_matrix(case['method'], func=f1)
        npp = rec['np']
        d = list(log)
        if case['method'] in ('bootstrap', 'marked_bootstrap'):
            rec['draws'] = [d[i:i + npp] for i in range(0, len(d), npp)]
        rec['v'] = [SL(x) for x in v]
        rec['w'] = SL(w)
        for c in corrs:
            c.rng._r.seed(case['seed'])
        try:
            if case['via'] == 'multi':
                C = tc.estimate_multi_cov(corrs, case['method'], func=fm)
            elif case['via'] == 'attr':
                C = corrs[0].cov
            else:
                C = corrs[0].estimate_cov(case['method'], func=f1)
            rec['C'] = [SL(x) for x in C]
        except RuntimeError:
            rec['raised'] = True
    rec['unchanged'] = all(same(b, snapshot(c, s['cls'])) for b, c, s in zip(before, corrs, specs))
    if case['via'] == 'attr' and not rec['raised'] and name != 'NN':
        c = corrs[0]
        d = np.diag(c.cov)
        n = c.weight.size
        if hasattr(c, 'varxip'):
            got = np.concatenate([c.varxip.ravel(), c.varxim.ravel()])
        else:
            got = c.varxi.ravel()
        ok = np.allclose(got, d, rtol=1e-12, atol=0) and np.allclose(c.cov_diag, d, rtol=1e-12, atol=0)
        # (a field without any scatter reports zero variance)
        rec['varok'] = bool(rec['varok'] and (ok or c._var_num == 0))
    return [rec]
