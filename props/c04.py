"""C04: threads, tree shape, search options, field cache and object order do not matter."""
import numpy as np
from vt.gen import *   # noqa
from . import c01
from .pair_common import pair_out
from .tri_common import case3, run3, out3, CLASSES3   # noqa

ID = 'C04'
TRACE = 'AgreeTrace'
ACT = ['Take', 'SelfSplit', 'SelfDone', 'Drop', 'Accept', 'SplitPair', 'Finish', 'Merge']
MODELS = [dict(module='PairWalk', cfg='PairWalk_thr.cfg', actions=ACT),
          dict(module='PairWalk', cfg='PairWalk_race.cfg', expect='violation'),
          dict(module='PairWalk', cfg='PairWalk_thr4.cfg', actions=ACT, thorough_only=True, workers=4, timeout=3000, heap='6g')]
RULE = ('two- and three-point correlations of every class, coordinates, metric and bin type; each data set processed under 7-10 '
        'variants: threads 1-8 (repeated), split method, min_top/max_top, brute (all, first, second), permuted objects, cached and '
        'uncached fields, several correlations sharing the catalogs')
ERR = dict(err='')
HEAP = '2g'
NEED = dict(bin_slop=0, angle_slop=0)


def tree(rng):
    kw = dict(split_method=['mean', 'median', 'middle', 'random'][rng.randint(4)])
    a = int(rng.randint(0, 6))
    r = rng.randint(3)
    if r == 0:
        kw['min_top'] = a
    elif r == 1:
        kw['max_top'] = a
    else:
        kw.update(min_top=a, max_top=a + int(rng.randint(0, 5)))
    return kw


def variants(rng, three):
    v = [dict(name='threads', kw={}, nt=int(rng.choice([2, 3, 5, 8])), rep=3),
         dict(name='tree', kw=tree(rng), nt=1),
         dict(name='tree_threads', kw=tree(rng), nt=int(rng.choice([2, 4, 8])), rep=2),
         dict(name='brute', kw=dict(brute=True), nt=int(rng.choice([1, 4]))),
         dict(name='order', kw=tree(rng) if rng.randint(2) else {}, nt=1, perm=int(rng.randint(1 << 30))),
         dict(name='cached', kw={}, nt=1, share=True, size=int(rng.choice([0, 1, 3])), other=[tree(rng), dict(brute=True)][rng.randint(2)])]
    if not three:
        v.append(dict(name='brute12', kw=dict(brute=int(rng.choice([1, 2]))), nt=1))
    else:
        v.append(dict(name='brute1', kw=dict(brute=1), nt=1))
    v.append(dict(name='top', kw=dict(min_top=int(rng.randint(0, 8)), max_top=10), nt=8))
    return v


def cases(seed, tier):
    rng = np.random.RandomState(4000 + seed)
    n = 900 if tier == 'quick' else 20000
    out = []
    for i in range(n):
        if i % 4 == 3:
            case = case3(rng, nmax=9)
            case['three'] = True
            case['algo'] = ['triangle', None][rng.randint(2)] if case['kw']['bin_type'] == 'LogSAS' else None
            case['kw'].update(NEED)
        else:
            case = c01.one(rng, c01.CLASSES, big=(i % 7 == 0), wmodes=('pos', 'unit'), exact=True)
            if case['kw']['bin_type'] == 'Linear' and case['kw'].get('min_sep') == 0:
                continue    # (known finding of C01)
            if i % 40 == 0:
                case['kw'] = dict(bin_type='Log', min_sep=0.01, max_sep=20., nbins=int(rng.choice([500, 3000])))
                case['auto'], case['cls'] = True, ['NN', 'KK', 'GG'][rng.randint(3)]
                case['c1'] = cat(rng, 60, 'flat', scale=5.0)
                case['many'] = True
            case['three'] = False
            for k in ('split_method', 'min_top', 'max_top', 'brute'):
                case['kw'].pop(k, None)
            case['kw'].update(NEED)
            # extended cells are documented as approximate for these: only brute force is exact there
            if case['kw'].get('metric') in ('Rperp', 'FisherRperp', 'OldRperp', 'Rlens', 'Arc') or 'min_rpar' in case['kw'] or 'max_rpar' in case['kw']:
                case['kw']['brute'] = True
        case['vars'] = variants(rng, case['three'])
        if case['kw'].get('brute'):
            for v in case['vars']:
                v['kw'].pop('brute', None)
        if case.get('many'):
            case['vars'] = [dict(name='threads', kw=dict(min_top=4), nt=8, rep=8)]
        out.append(case)
    return out


def permute(c, rng):
    p = rng.permutation(len(c['p']))
    return dict(c, p=[c['p'][i] for i in p], w=[c['w'][i] for i in p], v=[c['v'][i] for i in p])


def compute(tc, case, kw, nt, cats, store=None):
    """cats: catalog dicts.  store: real catalogs to (re)use."""
    if case['three']:
        L = [case['cls'][0]] * 3
    else:
        L = case['cls'] if not case['auto'] else case['cls'][0]
    real = store or [mk_cat(tc, c, l) for c, l in zip(cats, L)]
    if case['three']:
        # (weighted sums: where the weights of a bin cancel to rounding error, the mean is noise)
        return out3(run3(tc, dict(case, nt=nt), cats=real, **kw), case['cls'], sums=True), real
    corr = corr_cls(tc, case['cls'])(**dict(case['kw'], **kw))
    corr.process(*real, num_threads=nt)
    return fixim(case, pair_out(corr, case['cls'])), real


def fixim(case, o):
    if case['auto'] and case['kw'].get('bin_type') != 'TwoD' and case['cls'][0] not in 'NK':
        o['xi_im'] = []       # which of the two comes first in an unordered pair is arbitrary
    return o


def run(case):
    import treecorr as tc
    if case['three']:
        cats = case['cats']
        if case['kw'].get('metric') == 'Arc':
            case = dict(case, kw=dict(case['kw'], brute=True))
    else:
        cats = [case['c1']] + ([] if case['auto'] else [case['c2']])
    ref, real = compute(tc, case, {}, 1, cats)
    rec = dict(ref=ref, vars=[], rtol='1e-7', atol='1e-8', exact=['ntri' if case['three'] else 'npairs'],
               nontrivial=any(isinstance(x, str) or x != 0 for x in ref['weight']), kind='3pt' if case['three'] else '2pt')
    if case['three'] and case['kw']['bin_type'] != 'LogRUV' and case['algo'] != 'triangle':
        rec['exact'] = []
    for v in case['vars']:
        for _ in range(v.get('rep', 1)):
            o = dict(name=v['name'], err='')
            try:
                cs = cats
                if 'perm' in v:
                    cs = [permute(c, np.random.RandomState(v['perm'])) for c in cats]
                if v.get('share'):
                    for c in real:
                        c.resize_cache(v['size'])
                    # another correlation with other options uses the catalogs in between
                    kw2 = dict(v['other'])
                    if case['three'] is False:
                        kw2.update(max_sep=case['kw'].get('max_sep', 1.) * 0.8) if case['kw'].get('max_sep') and case['kw'].get('min_sep', 0) < 0.7 * case['kw'].get('max_sep') else None
                    compute(tc, case, kw2, 1, cats, store=real)
                    o['out'], _ = compute(tc, case, v['kw'], v['nt'], cats, store=real)
                else:
                    o['out'], _ = compute(tc, case, v['kw'], v['nt'], cs)
            except Exception as e:
                o['err'], o['out'] = '%s: %s' % (type(e).__name__, e), {}
            rec['vars'].append(o)
    return [rec]
