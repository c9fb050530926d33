"""C16: k-means patches, against spec/KMeansOut (runs) and spec/KMeansCull (culling of candidate centers, exhaustive)."""
import numpy as np

from vt import gen
from vt.gen import S, SL

ID = 'C16'
TRACE = 'KMeansTrace'
MODELS = [dict(module='KMeansCull', cfg='KMeansCull.cfg', workers=4, actions=['Visit']),
          dict(module='KMeansCull', cfg='KMeansCull_alt.cfg', workers=4, actions=['Visit']),
          dict(module='KMeansCull', cfg='KMeansCull_bad.cfg', workers=2, expect='violation'),
          dict(module='KMeansCull', cfg='KMeansCull_deep.cfg', workers=8, actions=['Visit'], thorough_only=True),
          dict(module='KMeansCull', cfg='KMeansCull_alt_deep.cfg', workers=8, actions=['Visit'], thorough_only=True)]
RULE = 'random catalogs, patch counts, initialisations, trees and stopping rules; every single refinement step is recorded'


def cases(seed, tier):
    rng = np.random.RandomState(1600 + seed)
    out = []
    for i in range(420 if tier == 'quick' else 6000):
        s = int(rng.randint(2**31))
        r = np.random.RandomState(s)
        coords = ['flat', '3d', 'sphere', 'sphere3'][i % 4]
        n = int(r.choice([1, 2, 4, 8, 15, 30, 60, 120]))
        scale = float(10**r.uniform(-3, 2)) if coords in ('flat', '3d') else float(10**r.uniform(-2.5, 0.5))
        kind = str(r.choice(['uniform', 'uniform', 'clump', 'line', 'dup', 'lattice'])) if coords in ('flat', '3d') else str(r.choice(['uniform', 'clump', 'dup', 'line']))
        c = gen.cat(r, n, coords, wmode=str(r.choice(['unit', 'pos'])), scale=scale, kind=kind)
        if coords in ('flat', '3d') and r.rand() < 0.3:      # the origin is one of the objects
            c['p'] = [[a - b for a, b in zip(p, c['p'][0])] for p in c['p']]
        elif coords in ('flat', '3d') and r.rand() < 0.3:
            off = r.normal(0, 5 * scale, len(c['p'][0]))
            c['p'] = [[float(a + b) for a, b in zip(p, off)] for p in c['p']]
        npatch = int(min(n, r.choice([1, 2, 3, 5, 8, 13, n])))
        field = {'flat': 'flat', '3d': '3d', 'sphere': 'spherical', 'sphere3': '3d'}[coords]
        if coords == 'sphere3' and r.rand() < 0.5:
            field = 'spherical'
        out.append(dict(c=c, field=field, npatch=npatch, init=str(r.choice(['tree', 'random', 'kmeans++'])), alt=bool(r.rand() < 0.2),
                        max_iter=int(r.choice([0, 1, 2, 5, 200])), tol=float(r.choice([1e-5, 1e-5, 1e-2, 0.2])), s=s))
    return out


def run(case):
    import treecorr
    c = case['c']
    r = np.random.RandomState(case['s'] + 1)
    L = str(r.choice(list('NKZVGTQ')))
    cat = gen.mk_cat(treecorr, c, L)
    k = {}
    if r.rand() < 0.5:
        k['split_method'] = str(r.choice(['mean', 'median', 'middle']))
    if r.rand() < 0.4:
        k['min_top'] = int(r.randint(0, 6))
    if r.rand() < 0.6:
        k['max_top'] = int(r.randint(0, 8))
    if r.rand() < 0.2:
        k['brute'] = True
    if case['field'] == 'spherical' and c['coords'] == 'sphere3':
        k['coords'] = 'spherical'
    direct = r.rand() < 0.3
    rs = np.random.default_rng if r.rand() < 0.3 else np.random.RandomState
    np_, init, alt = case['npatch'], case['init'], case['alt']
    rec = dict(coords=c['coords'], field=case['field'], pts=[SL(p) for p in c['p']], w=SL(c['w']), npatch=np_, init=init, alt=alt, tol=S(case['tol']),
               max_iter=case['max_iter'], steps=[], final=dict(c=[], lab=[]), repeated=True, composed=True, cat=[], err='', opt=repr((L, k, direct)))

    def field():
        if direct:
            return getattr(treecorr, '%sField' % L)(cat, rng=rs(case['s'] % 1000), **k)
        return getattr(cat, 'get%sField' % L)(**k)

    def J(a):
        return [SL(x) for x in np.asarray(a)]
    rec['one'] = one = bool(r.rand() < 0.5)      # a single thread: the same run gives the very same numbers
    treecorr.set_omp_threads(1 if one else None)
    if direct and one:
        k['split_method'] = 'random'             # (with several threads a different tree each time, whatever the seed)
    try:
        seed = int(r.randint(2**31))
        f = field()
        c0 = f.kmeans_initialize_centers(np_, init=init, rng=rs(seed))
        cc = c0.copy()
        rec['steps'].append(dict(c=J(cc), lab=[int(x) for x in f.kmeans_assign_patches(cc)]))
        for _ in range(min(case['max_iter'], 12, 1 + 12000 // (len(c['p']) * np_))):
            f.kmeans_refine_centers(cc, max_iter=1, tol=0., alt=alt)
            rec['steps'].append(dict(c=J(cc), lab=[int(x) for x in f.kmeans_assign_patches(cc)]))
        run = dict(max_iter=case['max_iter'], tol=case['tol'], init=init, alt=alt)
        lab, cen = f.run_kmeans(np_, rng=rs(seed), **run)
        rec['final'] = dict(c=J(cen), lab=[int(x) for x in lab])
        g = field()
        g.clear_cache() if hasattr(g, 'clear_cache') else None
        lab2, cen2 = g.run_kmeans(np_, rng=rs(seed), **run)
        tl = 0. if one else 1e-12 * (np.abs(cen).max() + 1)     # threads may merge their sums in any order
        rec['repeated'] = bool(np.allclose(cen, cen2, rtol=0, atol=tl) and (lab2 == lab).mean() >= (1. if one else 0.98))
        c3 = c0.copy()
        f.kmeans_refine_centers(c3, max_iter=case['max_iter'], tol=case['tol'], alt=alt)
        rec['composed'] = bool(np.allclose(c3, cen, rtol=0, atol=tl))
        if np_ > 1 and cat.ntot > np_:
            # a catalog that makes its own patches keeps the labels and centers of such a run
            cp = gen.mk_cat(treecorr, c, 'K', npatch=np_, kmeans_init=init, kmeans_alt=alt, rng=rs(seed))
            rec['cat'] = dict(c=J(cp.patch_centers), lab=[int(x) for x in cp.patch], npatch=int(cp.npatch))
    except Exception as e:
        rec['err'] = '%s: %s' % (type(e).__name__, e)
    finally:
        treecorr.set_omp_threads(None)
    return [rec]
