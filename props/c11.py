"""C11: whatever is done to a catalog - loading, unloading, copying, pickling, making or saving patches, selecting, combining - what
it shows is the rows it stands for.  Behaviours of spec/CatLife replayed into real catalogs, judged by spec/CatLifeOut."""
import os
import pickle
import copy as cp

import numpy as np

from vt import behav
from .cat_common import *   # noqa
from . import c12

ID = 'C11'
TRACE = 'CatLifeTrace'
MODELS = [dict(module='CatLife', cfg='CatLife_array.cfg'), dict(module='CatLife', cfg='CatLife_file.cfg'),
          dict(module='CatLife', cfg='CatLife_stale.cfg', expect='violation')]
RULE = ('behaviours of CatLife (12 operations: look, load, unload, copy, pickle, patches, write/read patches, write and read back, '
        'select, combine, correlate) on random catalogs from arrays and files, undivided or with patches by number, centers or k-means')


def mixes(h):
    ops = [x[0] for x in h]
    for t, x in enumerate(h):
        if x[0] == 'combine' and x[1] != x[2] and ['select', x[1]] in h[:t] and any(y[0] in ('look', 'cached', 'corr') and y[1] >= ops[:t].count('copy') + 1 for y in h[t:]):
            return True
    return False


def cases(seed, tier):
    rng = np.random.RandomState(11000 + seed)
    n = 260 if tier == 'quick' else 4000
    out = known()
    for src in ('array', 'file'):
        b = behav.load('CatLifeGen', 'CatLifeGen_' + src, simulate=3 * n, depth=12, seed=seed)
        # a third of them combine a selection with something else and use the result
        m = [h for h in b if mixes(h)][:n // 3]
        for h in m + [h for h in b if not mixes(h)][:n - len(m)]:
            c = c12.one(rng, 0)
            while c['bad'] or c['n'] < 5:
                c = c12.one(rng, 0)
            c = dict(settle(rng, c, src), hist=h, patches=['none', 'col', 'col', 'centers', 'kmeans'][rng.randint(5)],
                     h=int(rng.randint(1 << 30)), savedir=bool(rng.randint(4) == 0))
            if any(q[0] == 'combine' for q in h) and c['patches'] in ('none', 'col') and rng.randint(2):
                # objects without weight that are kept, so that only some of the selections have any
                c['o']['keep'] = True
                v = c['cols'].setdefault('w', [1.37 + 0.25 * k for k in range(c['n'])])
                for k in range(c['n']):
                    if v[k] == 'nan':
                        v[k] = 0.71
                    if rng.randint(5) == 0 and k > 5:
                        v[k] = 0.
            if c['patches'] == 'kmeans' and (src == 'file' or c['savedir']) and c['n'] < 9:
                c['patches'] = 'col'              # (a patch could be left empty)
            if c['patches'] == 'kmeans' and (src == 'file' or c['savedir']):
                # the patch of an object without weight is not determined
                for q, v in c['cols'].items():
                    for k in range(len(v)):
                        if v[k] == 'nan' or (q in ('w', 'wpos') and v[k] <= 0):
                            v[k] = 1.37 + 0.25 * k
            out.append(c)
    return out


def known():
    o = dict(first=1, last=-1, nth=1, xu='', yu='', rau='', decu='', flips=[], ignore=-1, ok=0, keep=False, xyz=False, sel=-1,
             npatch=-99, rand=False, unknown=False, hints=[], hint=2)
    u = [0.11, 0.83, 0.37, 0.59, 0.23, 0.97, 0.71, 0.47, 0.05, 0.66, 0.91, 0.29]
    x, y = [10 * q for q in u], [10 * q for q in u[5:] + u[:5]]
    base = dict(n=12, o=o, style='FITS', seed=1, bad='', h=5, savedir=False)
    return [dict(base, cols=dict(x=x, y=y), patches='centers', centers=[[0., 0.], [8., 8.], [50., 50.]], hist=[['patches_low', 1], ['corr', 1]],
                 known='empty-patch-low-mem'),
            dict(base, cols=dict(x=x, y=y), patches='col', labels=[0, 2] * 6, savedir=True, hist=[['patches_low', 1], ['lookp', 1]],
                 known='missing-patch-number-read-back')]


def key(case, rec, clauses):
    k = case.get('known', '')
    return k if rec['err'].startswith({'empty-patch-low-mem': ('died', 'ValueError: zero-size'),
                                       'missing-patch-number-read-back': 'OSError'}.get(k, '')) else ''


def settle(rng, c, src):
    """a table in which at least four rows are good, and the options this property uses"""
    o, cols = c['o'], c['cols']
    o.update(first=int(rng.randint(1, 3)), last=-1, nth=int([1, 1, 1, 2][rng.randint(4)]) if c['n'] > 10 else 1, sel=-1, npatch=-99, hints=[])
    cols.pop('patch', None)
    if o['xyz']:
        o['xyz'] = False
        for q in 'xyz':
            cols.pop(q, None)
    o['rand'] = bool(src == 'file' and rng.randint(6) == 0)
    for q, v in cols.items():
        for i in range(min(len(v), 2 + 4 * o['nth'])):
            if q == 'flag':
                v[i] = 0
            elif v[i] == 'nan' or (q in ('w', 'wpos') and v[i] <= 0):
                v[i] = 1.37 + 0.25 * i
    if src == 'array':
        c['style'] = 'array'
    elif c['style'] == 'array':
        c['style'] = ['ASCII', 'ASCIINP', 'FITS', 'HDF'][rng.randint(4)]
    return c


def died(f):
    pid = os.fork()
    if pid == 0:
        try:
            f()
        finally:
            os._exit(0)
    return os.waitpid(pid, 0)[1] != 0


def run(case):
    import treecorr as tc
    rng = np.random.RandomState(case['h'])
    case = cp.deepcopy(case)
    tag = 'h%d/' % case['h']
    os.makedirs(tag, exist_ok=True)
    case['dir'] = tag
    n, div = case['n'], case['patches']
    flat = 'x' in case['cols'] and 'z' not in case['cols']
    given = None
    savedir = case['savedir'] and div != 'none'
    extra = {}
    if div == 'col':
        case['cols']['patch'] = [int(q) for q in rng.randint(0, 3, n)]
        if savedir or rng.randint(2):
            # every number occurs in a row that is kept
            for t in range(4):
                case['cols']['patch'][case['o']['first'] - 1 + t * case['o']['nth']] = t % 3
        if 'labels' in case:
            case['cols']['patch'] = case['labels']
        elif not savedir and rng.randint(2):
            case['o']['npatch'] = int(rng.randint(3, 6))
    elif div == 'kmeans':
        case['o']['npatch'] = int(rng.randint(2, 4)) if case['style'] == 'array' and not savedir else 2
    elif div == 'centers':
        given = rng.normal(0, 2, (rng.randint(2, 4), 2 if flat else 3))
        if 'centers' in case:
            given = np.array(case['centers'])
        elif case['style'] != 'array' or savedir or rng.randint(2):
            # next to some of the objects, so that every one of them gets some
            os.makedirs(tag + 'pre')
            try:
                c0 = build(tc, dict(cp.deepcopy(case), dir=tag + 'pre/'))[1]()
                pos = np.unique(np.column_stack([c0.x, c0.y] + ([] if flat else [c0.z])), axis=0)
            except Exception:
                return []
            given = pos[rng.permutation(len(pos))[:3]] * (1 + 1e-4)
        if 'ra' in case['cols'] and 'r' not in case['cols']:
            given /= np.sqrt(np.sum(given**2, axis=1))[:, np.newaxis]
        if rng.randint(2):
            extra['patch_centers'] = given
        else:
            fn = tag + 'centers.dat'
            with open(fn, 'w') as f:
                f.write('# patch x y\n' if flat else '# patch x y z\n')
                for i, g in enumerate(given):
                    f.write(' '.join([str(i)] + [repr(float(v)) for v in g]) + '\n')
            extra['patch_centers'] = fn
    if savedir:
        os.makedirs(tag + 'save', exist_ok=True)
        extra['save_patch_dir'] = tag + 'save'
    rec, make = build(tc, case, extra)
    rec.update(first=True, op='make', i=1, given=SL(given.ravel()) if given is not None else [], ngiven=0 if given is None else len(given))
    recs = [rec]

    def fail(e):
        import traceback
        recs[-1]['err'] = '%s: %s' % (type(e).__name__, str(e)[:200]) if 'died' not in str(e) else 'died'
        recs[-1]['weightless'] = 'invalid sumw' in str(e)
        recs[-1]['tb'] = traceback.format_exc()[-800:]
        return recs
    try:
        objs = [make()]
    except Exception as e:
        return fail(e)
    dirs = [None]
    hascen = [div in ('centers', 'kmeans')]
    for step, h in enumerate(case['hist']):
        op, i = h[0], h[1] - 1
        if i >= len(objs) or (len(h) > 2 and h[2] > len(objs)):
            continue
        c = objs[i]
        r = dict(first=False, op=op, i=i + 1, err='')
        if savedir and op in ('select', 'combine', 'reread'):
            continue
        if op == 'readp' and (dirs[i] is None or c.npatch > 1 and len(set(c.patch)) < c.npatch):
            continue
        recs.append(r)
        try:
            if op in ('look', 'cached'):
                r['out'] = observe(c, rng)
                r['out'].update(cen=[], keepcen=div == 'kmeans')
                full = r['out']['patch'] != [] and set(r['out']['patch']) == set(range(c.npatch))
                if c.npatch > 1 and (full or hascen[i]) or c.npatch == 1 and div == 'none':
                    r['out']['cen'] = SL(np.array(c.patch_centers).ravel())
            elif op == 'load':
                c.load()
            elif op == 'unload':
                c.unload()
            elif op in ('patches', 'patches_low'):
                c.get_patches(low_mem=op == 'patches_low')
            elif op == 'lookp':
                r['outs'] = [dict(num=int(p.patch) if p.patch is not None and np.isscalar(p.patch) else -1, out=observe(p, rng)) for p in c.patches]
                if rng.randint(3) == 0:
                    for p in c.patches:
                        if p is not c:
                            p.unload()
            elif op == 'writep':
                if dirs[i] is None or rng.randint(2):
                    dirs[i] = '%sp%d' % (tag, step)
                    os.makedirs(dirs[i])
                c.write_patches(dirs[i])
            elif op == 'readp':
                c.read_patches(dirs[i])
            elif op == 'clear':
                c.clear_cache()
            elif op == 'corr':
                sep = dict(min_sep=0.5, max_sep=9, nbins=3, brute=True)
                if 'x' not in case['cols'] or case['o']['xyz']:
                    sep.update(metric='Euclidean')
                nn = tc.NNCorrelation(**sep)
                if 'known' in case and died(lambda: nn.process(c, low_mem=True)):
                    raise RuntimeError('the process died')
                nn.process(c, low_mem=bool(rng.randint(2)))
                r['vals'] = SL(nn.npairs) + SL(nn.weight) + SL(nn.meanr)
            elif op == 'copy':
                objs.append(c.copy() if rng.randint(2) else cp.deepcopy(c))
                dirs.append(None)
                hascen.append(hascen[i])
            elif op == 'pickle':
                objs.append(pickle.loads(pickle.dumps(c)))
                dirs.append(None)
                hascen.append(hascen[i])
            elif op == 'reread':
                ext = ['.fits', '.hdf5', '.dat'][rng.randint(3)]
                fn = '%sw%d%s' % (tag, step, ext)
                names = c.write(fn)
                kw = {q + '_col': q for q in names}
                for q, u in (('xu', 'x_units'), ('yu', 'y_units'), ('rau', 'ra_units'), ('decu', 'dec_units')):
                    if case['o'][q] and (q in ('rau', 'decu')) == ('ra' in names):
                        kw[u] = case['o'][q]
                if 'patch' in names:
                    kw['npatch'] = c.npatch
                if 'keep' in case['o'] and case['o']['keep'] or np.any(c.w == 0):
                    kw['keep_zero_weight'] = True
                r['lab'] = [] if c.patch is None else [int(q) for q in c.patch]
                objs.append(tc.Catalog(fn, verbose=0, **kw))
                dirs.append(None)
                hascen.append(False)
            elif op == 'select':
                m = np.where(rng.uniform(0, 1, c.ntot) < 0.7)[0]
                if np.any(c.w == 0) and rng.randint(2):
                    m = np.where(c.w != 0)[0]
                if len(m) < 2 or not np.sum(c.w[m]) > 0.1:
                    m = np.arange(c.ntot)
                k = rng.randint(3)
                if k == 0:
                    m = rng.permutation(m)
                r['idx'] = [int(q) + 1 for q in m]
                if k == 1:
                    b = np.zeros(c.ntot, dtype=bool)
                    b[m] = True
                    m = b
                c.select(m)
                dirs[i] = None
            elif op == 'combine':
                j = h[2] - 1
                d = objs[j]
                r['j'] = j + 1
                masks = [rng.uniform(0, 1, q.ntot) < 0.7 for q in (c, d)] if rng.randint(2) else None
                r['mi'], r['mj'] = [[int(q) + 1 for q in (np.where(masks[t])[0] if masks else range(x.ntot))] for t, x in enumerate((c, d))]
                objs.append(tc.Catalog.combine([c, d], mask_list=masks, low_mem=bool(rng.randint(2))))
                dirs.append(None)
                hascen.append(False)
        except Exception as e:
            return fail(e)
    return recs
