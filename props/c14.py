"""C14: the field cache.  Histories of cache operations generated from spec/LruCache (LruGen) are replayed into the real
LRU_Cache; random histories of field requests on real catalogs are recorded; both are judged by spec/FieldOut."""
import copy
import os
import pickle

import numpy as np

from vt import behav, gen
from vt.gen import S, SL

ID = 'C14'
TRACE = 'FieldTrace'
MODELS = [dict(module='LruCache', cfg='LruCache.cfg', actions=['Get', 'Resize', 'Clear']),
          dict(module='LruLinks', cfg='LruLinks.cfg', actions=['GetHit', 'GetMiss', 'LResize', 'LClear'])]
RULE = ('every behaviour of LruCache up to 5 operations over 3 keys and capacities 0..3, and sampled behaviours of 30 operations '
        'over 5 keys, replayed into LRU_Cache; random histories of get*Field/resize/clear/unload/copy on catalogs')
KINDS = 'NKZVGTQ'


def cases(seed, tier):
    out = []
    b = behav.load('LruGen', 'LruGen')
    n = 60
    for i in range(0, len(b), n):
        out.append(dict(kind='raw', hist=b[i:i + n], c0=1))
    d = behav.load('LruGen', 'LruGen_deep', simulate=300 if tier == 'quick' else 3000, depth=30, seed=seed)
    rng = np.random.RandomState(1400 + seed)
    d = [d[i] for i in sorted(rng.permutation(len(d))[:300 if tier == 'quick' else 4000])]
    for i in range(0, len(d), 30):
        out.append(dict(kind='raw', hist=d[i:i + 30], c0=1))
    for c in range(4):
        out.append(dict(kind='raw', hist=[h for h in b[::97]][:40], c0=c))
    for i in range(48 if tier == 'quick' else 600):
        r = np.random.RandomState(rng.randint(2**31))
        coords = ['flat', '3d', 'sphere', 'sphere3'][i % 4]
        c = gen.cat(r, r.randint(5, 30), coords, scale=1.0)
        ops = []
        for _ in range(r.randint(15, 30)):
            o = r.choice(['get'] * 12 + ['resize', 'resize', 'resize_all', 'clear', 'clear_all', 'unload', 'copy', 'copy2', 'reload', 'badresize'])
            ops.append([str(o), int(r.randint(0, 4)), int(r.randint(0, 7)), int(r.randint(0, 14))])
        nk = r.randint(1, 4)
        ks = [int(x) for x in r.permutation(7)[:nk]]
        for o in ops:
            o[2] = ks[o[2] % nk]
        if i % 3 == 0:
            ops.insert(0, ['resize_all', int(r.choice([0, 2, 3])), 0, 0])
        out.append(dict(kind='cat', c=c, ops=ops, file=bool(i % 2), cpos=[float(x) for x in r.uniform(-0.5, 0.5, 3)], sep=float(r.uniform(0.3, 1.2))))
    return out


class Tok:
    def __init__(self):
        self.keep = []

    def __call__(self, f):
        if f is None:
            return 0
        for i, x in enumerate(self.keep):
            if x is f:
                return i + 1
        self.keep.append(f)
        return len(self.keep)


def seen(cache, tok):
    return dict(size=int(cache.size), count=int(cache.count), values=[tok(v) for v in cache.values()], last=tok(cache.last_value))


def raw(case):
    from treecorr.util import LRU_Cache
    recs = []
    for h in case['hist']:
        tok = Tok()
        calls = []

        class Boom(Exception):
            pass

        def fn(k, **kw):
            calls.append(k)
            if k == 'boom':
                raise Boom()
            return ['value of', k, len(calls)]
        first = True
        cache = LRU_Cache(fn, case['c0'])
        recs.append(dict(first=True, op='new', name='raw', n=case['c0'], seen=dict(raw=seen(cache, tok)), err=''))
        for op, x in h:
            r = dict(first=False, op=op, name='raw', err='')
            try:
                if op == 'get':
                    n0 = len(calls)
                    v = cache(x, extra=len(calls))
                    r.update(key=str(x), ret=tok(v), called=len(calls) - n0)
                    if v[1] != x:
                        r['err'] = 'result for another key'
                elif op == 'resize':
                    cache.resize(x)
                    r['n'] = x
                elif op == 'clear':
                    cache.clear()
                elif op == 'fail':
                    r['refused'] = False
                    try:
                        cache('boom')
                    except Boom:
                        r['refused'] = True
                elif op == 'badresize':
                    r['refused'] = False
                    try:
                        cache.resize(-1)
                    except ValueError:
                        r['refused'] = True
            except Exception as e:
                r['err'] = '%s: %s' % (type(e).__name__, e)
            if not r['err']:
                r['seen'] = dict(raw=seen(cache, tok))
            recs.append(r)
            if r['err']:
                break
    return recs


OPTS = [dict(), dict(min_size=0.1), dict(min_size=0.1, max_size=2.), dict(max_size=2.), dict(split_method='median'), dict(split_method='middle'),
        dict(brute=True), dict(min_size=0.1, brute=True), dict(min_top=0), dict(min_top=2, max_top=2), dict(max_top=1), dict(min_top=5, max_top=4),
        dict(coords='x'), dict(split_method='random', min_size=0.2)]


def run(case):
    if case['kind'] == 'raw':
        return raw(case)
    import treecorr
    c = case['c']
    cls = dict(N=treecorr.NField, K=treecorr.KField, Z=treecorr.ZField, V=treecorr.VField, G=treecorr.GField, T=treecorr.TField, Q=treecorr.QField)
    base = gen.mk_cat(treecorr, c, 'KZVGTQ')
    if case['file']:
        fn = os.path.abspath('c14.fits')
        base.write(fn)
        kw = {}
        for L in 'zvgtq':
            kw.update({L + '1_col': L + '1', L + '2_col': L + '2'})
        if c['coords'] == 'flat':
            kw.update(x_col='x', y_col='y')
        elif c['coords'] == '3d':
            kw.update(x_col='x', y_col='y', z_col='z')
        else:
            kw.update(ra_col='ra', dec_col='dec', ra_units='rad', dec_units='rad')
            if c['coords'] == 'sphere3':
                kw.update(r_col='r')
        base = treecorr.Catalog(fn, k_col='k', w_col='w', **kw)
    cats = [base]
    tok = Tok()
    recs = []
    pts = np.array([base.x, base.y] if c['coords'] == 'flat' else [base.x, base.y, base.z]).T
    if case['file']:
        base.unload()
    touched = set()      # (cat, kind) whose cache was used (looking at others would create them)

    def fields(ci, L):
        return getattr(cats[ci], L.lower() + 'fields')

    def look():
        return {'%d:%s' % (ci, L): seen(fields(ci, L), tok) for ci, L in sorted(touched)}
    first = True
    cur = 0
    for op, n, kk, oo in case['ops']:
        L = KINDS[kk]
        name = '%d:%s' % (cur, L)
        cat = cats[cur]
        r = dict(first=first, op=op, name=name, err='')
        first = False
        try:
            if op == 'get':
                o = dict(OPTS[oo])
                if 'coords' in o:
                    o['coords'] = {'flat': 'flat', '3d': '3d', 'sphere': 'spherical', 'sphere3': 'spherical'}[c['coords']]
                before = [id(v) for v in fields(cur, L).values()] if (cur, L) in touched else []
                f = getattr(cat, 'get%sField' % L)(**o)
                touched.add((cur, L))
                t = tok(f)
                full = dict(kind=L, min_size=S(o.get('min_size', 0)), max_size=S(o.get('max_size', np.inf)), split=o.get('split_method', 'mean'),
                            brute=o.get('brute', False), min_top=o.get('min_top', -1), max_top=o.get('max_top', 10),
                            coords=o.get('coords', {'flat': 'flat', '3d': '3d', 'sphere': 'spherical', 'sphere3': '3d'}[c['coords']]), cat=cur)
                key = repr((full, 'coords' in o))
                if c['coords'] == 'flat':
                    x = case['cpos'][:2]
                    near = f.count_near(x[0], x[1], case['sep'])
                elif c['coords'] == '3d':
                    x = case['cpos']
                    near = f.count_near(x[0], x[1], x[2], case['sep'])
                else:
                    x, near = None, 0
                P = pts if x is not None else pts * 0 + 5
                fresh = cls[L](cat, **dict(o)) if o.get('split_method') != 'random' else f
                got = dict(kind=type(f).__name__[0], min_size=S(f.min_size), max_size=S(f.max_size), split=f.split_method, brute=f.brute,
                           min_top=f.min_top, max_top=f.max_top, coords=f.coords, ntop=int(f.nTopLevelNodes), fresh=int(fresh.nTopLevelNodes),
                           cat=[i for i, q in enumerate(cats) if f.cat is q][0], ntot=int(f.ntot), near=int(near),
                           x=SL(x if x is not None else np.zeros(P.shape[1])), sep=S(case['sep']))
                r.update(key=key, ret=t, called=0 if id(f) in before else 1, req=full, got=got, pts=[SL(p) for p in P], current=tok(cat.field))
            elif op == 'resize':
                fields(cur, L).resize(n)
                touched.add((cur, L))
                r['n'] = n
            elif op == 'clear':
                fields(cur, L).clear()
                touched.add((cur, L))
            elif op == 'resize_all':
                cat.resize_cache(n)
                touched.update((cur, k) for k in KINDS)
                r.update(n=n, names=['%d:%s' % (cur, k) for k in KINDS])
            elif op == 'clear_all':
                cat.clear_cache()
                r.update(names=['%d:%s' % (cur, k) for k in KINDS], current=tok(cat.field))
            elif op in ('unload', 'reload'):
                cat.unload()
                if op == 'reload':
                    cat.x
                r.update(op='clear_all', names=['%d:%s' % (cur, k) for k in KINDS], current=tok(cat.field))
            elif op in ('copy', 'copy2'):
                cats.append(cat.copy() if n % 3 == 0 else copy.copy(cat) if n % 3 == 1 else pickle.loads(pickle.dumps(cat)))
                if op == 'copy2':
                    cur = len(cats) - 1
            elif op == 'badresize':
                r['refused'] = False
                try:
                    fields(cur, L).resize(-1)
                except ValueError:
                    r['refused'] = True
                touched.add((cur, L))
        except Exception as e:
            import traceback
            r['err'] = '%s: %s' % (type(e).__name__, e)
            r['tb'] = traceback.format_exc()[-600:]
            recs.append(r)
            break
        r['seen'] = look()
        recs.append(r)
    return recs
