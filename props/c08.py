"""C08: count estimators equal their formulas, in full and in every resampling of the patches."""
import numpy as np
from vt.gen import *   # noqa
from . import c05
from .c07 import Rec, snapshot, same

ID = 'C08'
TRACE = 'EstTrace'
MODELS = []
RULE = ('data and random catalogs with different weights, sizes and patches (divided, undivided, one-sided, with gaps) x '
        'estimator x variance method, several calculations in sequence on the same counts; two- and three-point')
ERR = dict(err='')
METHODS = ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap']


def cases(seed, tier):
    rng = np.random.RandomState(8000 + seed)
    n = 700 if tier == 'quick' else 12000
    out = []
    for i in range(n):
        three = i % 4 == 3
        np_ = int(rng.choice([2, 3] if three else [2, 3, 4]))
        nd, nr = (rng.randint(4, 9), rng.randint(5, 10)) if three else (rng.randint(4, 16), rng.randint(8, 24))
        cross = not three and rng.randint(3) == 0
        case = dict(three=three, cross=bool(cross), np=np_, cats={}, pa={})
        gap = rng.randint(8) == 0 and np_ > 2     # a patch without any data
        bothgap = gap and rng.randint(2)
        for nm, m in (('d1', nd), ('r1', nr), ('d2', nd + 2), ('r2', nr + 1), ('s1', nr + 3), ('s2', nr)):
            if nm[1] == '2' and not cross:
                continue
            wm = ['unit', 'pos', 'pos'][rng.randint(3)]
            case['cats'][nm] = cat(rng, int(m), 'flat', wmode=wm, scale=3.0)
            x = np.array(case['cats'][nm]['p'])[:, 0]
            pa = rng.randint(0, np_, m) if rng.randint(2) else np.clip(((x + 3) * np_ / 6).astype(int), 0, np_ - 1)
            if gap and np_ > 2 and (nm[0] == 'd' or bothgap):
                pa = np.where(pa == 1, 0, pa)
            else:
                pa[:np_] = np.arange(np_)
            pa[0] = np_ - 1
            if not gap:
                pa[1] = 0 if np_ > 1 else pa[1]
                for p in range(np_):
                    pa[(p + 1) % m if p else 1] = p
            pa[0] = np_ - 1
            case['pa'][nm] = [int(v) for v in pa]
        # which catalogs are divided at all
        lay = rng.randint(8)
        div = dict(d1=True, d2=True, r1=True, r2=True, s1=True, s2=True)
        if lay == 0:
            div = {k: False for k in div}
        elif lay in (1, 2):
            div.update(r1=False, r2=False, s1=False, s2=False)
        elif lay == 3 and cross:
            k = ['d2', 'd1'][rng.randint(2)]
            div[k] = div['r' + k[1]] = div['s' + k[1]] = False
        elif lay == 4 and cross:
            k = ['d2', 'd1'][rng.randint(2)]
            div[k] = False
            div.update(r1=False, r2=False, s1=False, s2=False)
        elif lay == 5:
            div.update(s1=False, s2=False)
        case['div'] = div
        if three:
            bt = ['LogRUV', 'LogSAS'][rng.randint(2)]
            case['kw'] = dict(min_sep=0.5, max_sep=8.0, nbins=2, bin_type=bt, bin_slop=0, angle_slop=0)
            if bt == 'LogRUV':
                case['kw'].update(nubins=1, nvbins=1)
            else:
                case['kw'].update(nphi_bins=2)
        else:
            bt = ['Log', 'Linear'][rng.randint(2)]
            mn = float(rng.uniform(0.1, 0.6))
            case['kw'] = dict(min_sep=mn, max_sep=mn + float(rng.uniform(1, 5)), nbins=int(rng.randint(1, 5)), bin_type=bt,
                              bin_slop=0, angle_slop=0)
        undiv = not any(div[k] for k in div if k[0] == 'd' and k in case['cats'])
        ms = ['shot'] if undiv else ['shot'] + METHODS
        case['kw'].update(var_method=ms[rng.randint(len(ms))], num_bootstrap=int(rng.randint(2, 5)))
        case['steps'] = []
        for _ in range(rng.randint(1, 4)):
            use = [[], ['dr'], ['rd'], ['dr', 'rd']][rng.randint(4)] if not three else [[], ['dr', 'rd']][rng.randint(2)]
            R = 'rs'[rng.randint(2)]
            est = [] if undiv else [METHODS[rng.randint(4)]]
            case['steps'].append(dict(use=use, R=R, est=est))
        if cross and not undiv and div['d1'] != div['d2']:
            # one-sided data: randoms of the divided side have to be divided to be usable
            pass
        case['algo'] = [None, 'triangle', 'triangle'][rng.randint(3)]
        case['ordered'] = bool(rng.randint(2))
        case['seed'] = int(rng.randint(1 << 30))
        out.append(case)
    return out


def build(tc, case, nm):
    c = case['cats'][nm]
    pa = case['pa'][nm]
    return mk_cat(tc, c, 'N', patch=np.array(pa) if case['div'][nm] else None)


def parts_of(c, three):
    n = (c.npatch1, c.npatch2, c.npatch3) if three else (c.npatch1, c.npatch2)
    return dict(n=[int(x) for x in n],
                full=dict(w=SL(c.weight), np=SL(c.ntri if three else c.npairs), tot=S(c.tot)),
                parts=[dict(key=[int(x) for x in k], w=SL(x.weight), tot=S(x.tot)) for k, x in c.results.items()])


def snap3(c):
    return [c.ntri.copy(), c.weight.copy(), c.meand1.copy(), c.meand2.copy(), c.meand3.copy()]




def run(case):
    import treecorr as tc
    three, cross = case['three'], case['cross']
    C = {k: build(tc, case, k) for k in case['cats']}
    sw = {k: sum(v['w']) for k, v in case['cats'].items()}
    Cls = tc.NNNCorrelation if three else tc.NNCorrelation
    counts, tots = {}, {}

    def proc(key):
        """key: tuple of catalog names, ('d1',) = auto"""
        if key not in counts:
            c = Cls(rng=Rec(case['seed']), **case['kw'])
            kw = dict(ordered=case['ordered'], algo=case['algo']) if three else {}
            c.process(*[C[k] for k in key], num_threads=1, **kw)
            counts[key] = c
            if three:
                tots[key] = sw[key[0]] ** 3 / 6 if len(key) == 1 else sw[key[0]] * sw[key[1]] ** 2 / 2
            else:
                tots[key] = sw[key[0]] ** 2 / 2 if len(key) == 1 else sw[key[0]] * sw[key[1]]
        return counts[key]

    ddk = ('d1', 'd2') if cross else ('d1',)
    dd = proc(ddk)
    snap = (lambda c: snap3(c)) if three else (lambda c: snapshot(c, 'NN'))
    recs = []
    for st in case['steps']:
        R = st['R']
        keys = dict(dd=ddk, rr=(R + '1', R + '2') if cross else (R + '1',))
        if 'dr' in st['use']:
            keys['dr'] = ('d1', R + '2' if cross else R + '1')
        if 'rd' in st['use']:
            keys['rd'] = (R + '1', 'd2' if cross else 'd1')
        sets = {k: proc(v) for k, v in keys.items()}
        div = lambda nm: case['div'][nm]
        if len(dd.results):
            # supported layouts: rr undivided, or divided as dd; dr, rd as the data, the randoms optionally undivided
            rr = sets['rr']
            n = lambda c: (c.npatch1, c.npatch2)
            if (1 not in n(rr) and n(rr) != n(dd)) or (1 in n(rr) and n(rr) != (1, 1) and n(rr) != n(dd)) or \
                    (n(rr) == (1, 1) and any(1 not in n(sets[k]) for k in ('dr', 'rd') if k in sets)):
                continue
            if 'dr' in sets and (len(sets['dr'].results) == 0 or sets['dr'].npatch1 != dd.npatch1 or
                                 sets['dr'].npatch2 not in (dd.npatch2, 1)):
                continue
            if 'rd' in sets and (len(sets['rd'].results) == 0 or sets['rd'].npatch2 != dd.npatch2 or
                                 sets['rd'].npatch1 not in (dd.npatch1, 1)):
                continue
        before = {k: snap(c) for k, c in counts.items()}
        bparts = {k: {i: snap(x) for i, x in c.results.items()} for k, c in counts.items()}
        dd.rng._r.seed(case['seed'])
        refused = False
        try:
          if three:
            kk = {dict(rr='rrr', dr='drr', rd='rdd')[k]: c for k, c in sets.items() if k != 'dd'}
            ret = dd.calculateZeta(**kk)
          else:
            ret = dd.calculateXi(**{k: c for k, c in sets.items() if k != 'dd'})
        except RuntimeError as e:
            if 'Cannot compute sample variance' not in str(e) or case['kw']['var_method'] != 'sample':
                raise
            refused = True          # (judged: only when a patch has no random pairs)
        xi = dd.zeta if three else dd.xi
        var = [] if refused else dd.varzeta if three else dd.varxi
        rec = dict(three=three, sets={k: parts_of(c, three) for k, c in sets.items()}, np=max(dd.npatch1, dd.npatch2),
                   nboot=case['kw']['num_bootstrap'], method=case['kw']['var_method'],
                   totals={k: S(tots[v]) for k, v in keys.items()}, xi=SL(xi), var=SL(var), weight=SL(dd.getWeight()),
                   shot=SL(dd.estimate_cov('shot')), est=[],
                   refused=refused,
                   ret=refused or bool(np.array_equal(ret[0], xi, equal_nan=True) and np.array_equal(ret[1], var, equal_nan=True) and
                            np.array_equal(dd.getStat(), xi.ravel(), equal_nan=True)))
        ms = list(st['est'])
        if case['kw']['var_method'] != 'shot' and case['kw']['var_method'] not in ms:
            ms.append(case['kw']['var_method'])
        for m in ms:
            e = dict(method=m, draws=[], v=[], w=[], C=[], raised=False)
            dd.rng._r.seed(case['seed'])
            del dd.rng.log[:]
            v, w = dd.build_cov_design_matrix(m)
            d = list(dd.rng.log)
            if 'bootstrap' in m:
                e['draws'] = [d[i:i + rec['np']] for i in range(0, len(d), rec['np'])]
            e['v'], e['w'] = [SL(x) for x in v], SL(w)
            dd.rng._r.seed(case['seed'])
            try:
                e['C'] = [SL(x) for x in dd.estimate_cov(m)]
            except RuntimeError:
                e['raised'] = True
            rec['est'].append(e)
        rec['unchanged'] = all(same(before[k], snap(counts[k])) for k in before) and \
            all(same(s, snap(counts[k].results[i])) for k in bparts for i, s in bparts[k].items())
        recs.append(rec)
    return recs
