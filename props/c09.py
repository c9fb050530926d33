"""C09: randoms are subtracted correctly from count-field correlations."""
import numpy as np
from vt.gen import *   # noqa
from .c07 import Rec, snapshot, same

ID = 'C09'
TRACE = 'NxTrace'
MODELS = []
RULE = ('NK, NZ, NV, NG, NT, NQ with data and two sets of randoms (divided as the data, undivided, with patches missing on either '
        'side) x variance method x histories of calculations with either randoms or none, copies taken in between')
ERR = dict(err='')
METHODS = ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap']
NX = ['NK', 'NZ', 'NV', 'NG', 'NT', 'NQ']


def cases(seed, tier):
    rng = np.random.RandomState(9000 + seed)
    n = 700 if tier == 'quick' else 12000
    out = []
    for i in range(n):
        np_ = int(rng.choice([2, 3, 4]))
        case = dict(cls=NX[i % 6], np=np_, cats={}, pa={})
        lay = rng.randint(10)
        div = dict(d=True, a=True, b=True, s=True)
        if lay == 0:
            div = {k: False for k in div}
        elif lay == 1:
            div.update(a=False)
        elif lay == 2:
            div.update(a=False, b=False)
        elif lay == 3:
            div.update(s=False)
        elif lay == 4:
            div.update(s=False, b=False)
        elif lay == 5:
            div.update(d=False, a=False, b=False)
        elif lay == 6:
            div.update(d=False, a=False)      # (b: mismatched randoms, to be refused)
        case['div'] = div
        gap = {k: np_ > 2 and rng.randint(6) == 0 for k in 'dabs'}
        for nm, m in (('d', rng.randint(4, 14)), ('a', rng.randint(6, 20)), ('b', rng.randint(5, 12)), ('s', rng.randint(6, 18))):
            case['cats'][nm] = cat(rng, int(m), 'flat', wmode=['unit', 'pos', 'pos'][rng.randint(3)], scale=3.0)
            x = np.array(case['cats'][nm]['p'])[:, 0]
            pa = rng.randint(0, np_, m) if rng.randint(3) == 0 else np.clip(((x + 3) * np_ / 6).astype(int), 0, np_ - 1)
            for p in range(np_):
                pa[p] = p
            if gap[nm]:
                pa = np.where(pa == 1, 0, pa)
            case['pa'][nm] = [int(v) for v in pa]
        mn = float(rng.uniform(0.1, 0.6))
        case['kw'] = dict(min_sep=mn, max_sep=mn + float(rng.uniform(1, 4)), nbins=int(rng.randint(1, 4)),
                          bin_type=['Log', 'Linear'][rng.randint(2)], bin_slop=0, angle_slop=0)
        undiv = not (div['d'] or div['s'])
        case['kw'].update(var_method='shot' if undiv else (['shot'] + METHODS)[rng.randint(5)], num_bootstrap=int(rng.randint(2, 5)))
        case['steps'] = []
        for _ in range(rng.randint(1, 5)):
            case['steps'].append(dict(rz=['', 'a', 'a', 'b', 'b'][rng.randint(5)], est=[] if undiv else [METHODS[rng.randint(4)]],
                                      copy=bool(rng.randint(4) == 0), readvar=bool(rng.randint(2))))
        case['readfirst'] = bool(rng.randint(2))
        case['seed'] = int(rng.randint(1 << 30))
        out.append(case)
    return out


def sums(c, part):
    """weighted sums: partial results are not normalised, the full result is"""
    w = c.weight.ravel()
    x = c._xi1.ravel()
    y = c._xi2.ravel() if len(c._xi2) else np.zeros_like(x)
    f = 1 if part else w
    return dict(w=SL(w), x=SL(x * f), y=SL(y * f))


def rec_of(c):
    return dict(n=[int(c.npatch1), int(c.npatch2)], var=SL(c.varxi) if c.var_method == 'shot' else [],
                parts=[dict(key=[int(x) for x in k], **sums(v, True)) for k, v in c.results.items()], **sums(c, False))


def run(case):
    import treecorr as tc
    L = case['cls'][1]
    Cls = corr_cls(tc, case['cls'])
    rzn = 'r' + L.lower()
    C = {k: mk_cat(tc, case['cats'][k], L if k == 's' else 'N', patch=np.array(case['pa'][k]) if case['div'][k] else None)
         for k in case['cats']}

    def make(k):
        c = Cls(rng=Rec(case['seed']), **case['kw'])
        c.process(C[k], C['s'], num_threads=1)
        return c
    dk = make('d')
    rz = {k: make(k) for k in 'ab'}
    fresh = make('d')
    im = case['cls'] != 'NK'
    rec = dict(method=case['kw']['var_method'], nboot=case['kw']['num_bootstrap'], np=max(dk.npatch1, dk.npatch2), dk=rec_of(fresh),
               rz={k: rec_of(c) for k, c in rz.items()}, steps=[], badaccepted=False, scale=4, rawvar0=[])
    try:
        rec['rawvar0'] = SL(fresh.varxi)
        if case['readfirst']:
            dk.raw_varxi
    except RuntimeError as e:
        if 'sample' not in str(e):
            raise
        rec['method'] = 'bootstrap'      # (no reference for the raw variance)
    before = {k: snapshot(c, 'NK') for k, c in rz.items()}
    for st in case['steps']:
        s = dict(rz=st['rz'], refused=False, est=[])
        kw = {}
        if st['rz']:
            c = rz[st['rz']]
            kw = {rzn: c}
            if c.npatch1 not in (1, dk.npatch1) or c.npatch2 != dk.npatch2:
                # must be refused, leaving everything as it was
                try:
                    dk.calculateXi(**kw)
                    rec['badaccepted'] = True
                except (RuntimeError, ValueError):
                    pass
                continue
        if st['copy']:
            old = dk
            dk = dk.copy()
            try:
                old.calculateXi()
            except RuntimeError as e:
                if 'Cannot compute sample variance' not in str(e):
                    raise
            old.xi[:] = 99      # the copy is independent
        dk.rng._r.seed(case['seed'])
        try:
            ret = dk.calculateXi(**kw)
        except RuntimeError as e:
            if 'Cannot compute sample variance' not in str(e) or case['kw']['var_method'] != 'sample':
                raise
            s['refused'] = True
        s['xi'], s['im'] = SL(dk.xi), SL(dk.xi_im) if im else []
        s['raw'], s['rawim'] = SL(dk.raw_xi), SL(dk.raw_xi_im) if im else []
        s['var'], s['rawvar'], s['covdiag'] = [], [], []
        s['ret'] = True
        if not s['refused']:
            s['var'] = SL(dk.varxi)
            s['ret'] = all(np.array_equal(p, q, equal_nan=True) for p, q in zip(ret, [dk.xi] + ([dk.xi_im] if im else []) + [dk.varxi])) \
                and np.array_equal(dk.getStat(), dk.xi.ravel()) and np.array_equal(dk.getWeight(), dk.weight.ravel())
            s['covdiag'] = SL(dk.cov_diag)
            s['rawvar'] = SL(dk.raw_varxi) if st['readvar'] else rec['rawvar0']
        ms = list(st['est'])
        vm = case['kw']['var_method']
        if vm != 'shot' and vm not in ms:
            ms.append(vm)
        for m in ms:
            for func in ('stat', 'im') if im else ('stat',):
                f = None if func == 'stat' else (lambda c: c.xi_im)
                e = dict(method=m, func=func, draws=[], C=[], raised=False)
                dk.rng._r.seed(case['seed'])
                del dk.rng.log[:]
                v, w = dk.build_cov_design_matrix(m, func=f)
                d = list(dk.rng.log)
                if 'bootstrap' in m:
                    e['draws'] = [d[i:i + rec['np']] for i in range(0, len(d), rec['np'])]
                e['v'], e['w'] = [SL(x) for x in v], SL(w)
                dk.rng._r.seed(case['seed'])
                try:
                    e['C'] = [SL(x) for x in dk.estimate_cov(m, func=f)]
                except RuntimeError:
                    e['raised'] = True
                s['est'].append(e)
        s['others'] = all(same(before[k], snapshot(c, 'NK')) for k, c in rz.items()) and \
            bool(np.array_equal(dk.weight, fresh.weight) and np.array_equal(dk.npairs, fresh.npairs) and
                 np.array_equal(dk.meanr, fresh.meanr) and
                 np.array_equal(sum([v.npairs for v in dk.results.values()]) if dk.results else fresh.npairs, fresh.npairs) and
                 np.allclose(sum([v.weight for v in dk.results.values()]) if dk.results else fresh.weight, fresh.weight, rtol=1e-12))
        rec['steps'].append(s)
    return [rec]
