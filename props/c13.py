"""C13: every object is in exactly one patch - the number given or the nearest center - however the patches are obtained."""
import copy as cp
import os

import numpy as np

from .cat_common import *   # noqa
from . import c12
from .c11 import settle

ID = 'C13'
TRACE = 'PatchAssignTrace'
MODELS = []
RULE = ('random catalogs (all coordinates, weights, flags, NaN, row ranges; arrays and files) divided by patch numbers, by centers (random, '
        'on objects, on lattices with exact ties, repeated) or by k-means; single-patch reads, get_patches (low_mem or not), saved patch '
        'files, written centers (FITS, ASCII), centers reused')


def cases(seed, tier):
    rng = np.random.RandomState(13000 + seed)
    out = []
    while len(out) < (500 if tier == 'quick' else 8000):
        c = c12.one(rng, 0)
        if c['bad'] or c['n'] < 5:
            continue
        keep = {q: c['o'][q] for q in ('first', 'last', 'nth')}
        c = settle(rng, c, ['array', 'file'][rng.randint(2)])
        if c['n'] > 9:
            c['o'].update(keep)
        c['kind'] = ['col', 'centers', 'centers', 'kmeans'][rng.randint(4)]
        c['lattice'] = bool(rng.randint(2))
        c['h'] = int(rng.randint(1 << 30))
        if c['kind'] == 'kmeans' and c['n'] < 9:
            c['kind'] = 'centers'
        if c['kind'] == 'kmeans':
            c['o'].update(first=1, last=-1, nth=1)
        if c['kind'] != 'col' and any('nan' in c['cols'].get(q, []) for q in POS):
            c['o']['keep'] = False                # (an object without a position has no nearest center)
        if c['kind'] == 'kmeans' or (c['kind'] == 'centers' and rng.randint(2)):
            for q, v in c['cols'].items():
                for k in range(len(v)):
                    if v[k] == 'nan' or (q in ('w', 'wpos') and v[k] <= 0):
                        v[k] = 1.37 + 0.25 * k
        out.append(c)
    return out


def run(case):
    import treecorr as tc
    case = cp.deepcopy(case)
    rng = np.random.RandomState(case['h'])
    tag = 'h%d/' % case['h']
    os.makedirs(tag, exist_ok=True)
    case['dir'] = tag
    cols, o, n, kind = case['cols'], case['o'], case['n'], case['kind']
    flat = 'x' in cols and 'z' not in cols
    dim = 2 if flat else 3
    if case['lattice'] and 'x' in cols:
        o['xu'] = o['yu'] = ''
        for q in 'xyz'[:dim]:
            cols[q] = ['nan' if v == 'nan' else float(np.round(v / 2) * 2) for v in cols[q]]
    extra, given = {}, None
    np_ = 1
    if kind == 'col':
        np_ = int(rng.randint(2, 5))
        cols['patch'] = [int(q) for q in rng.randint(0, np_, n)]
        last = o['last'] if o['last'] > 0 else n
        seen = cols['patch'][o['first'] - 1:last:o['nth']]
        if rng.randint(2):
            o['npatch'] = int(max(seen) + 1 + rng.randint(3))
        np_ = max(max(seen) + 1, o['npatch'])
    elif kind == 'kmeans':
        np_ = o['npatch'] = int(rng.randint(2, 4))
    else:
        np_ = int(rng.randint(1, 6))
        if 'x' in cols:
            given = np.round(rng.uniform(-2.5, 2.5, (np_, dim))) * 2 if case['lattice'] else rng.normal(0, 2, (np_, dim))
        else:
            given = rng.normal(0, 1, (np_, dim))
            given /= np.sqrt(np.sum(given**2, axis=1))[:, np.newaxis]
            if 'r' in cols:
                given *= rng.uniform(1, 5, np_)[:, np.newaxis]
        if rng.randint(6) == 0 and np_ > 1:
            given[-1] = given[0]
        if rng.randint(4) == 0:
            o['npatch'] = np_
        r = rng.randint(4)
        if r == 0:
            fn = tag + 'centers.dat'
            with open(fn, 'w') as f:
                f.write('# patch x y\n' if flat else '# patch x y z\n')
                for i, g in enumerate(given):
                    f.write(' '.join([str(i)] + [repr(float(v)) for v in g]) + '\n')
            extra['patch_centers'] = fn
        elif r == 1:
            import fitsio
            fn = tag + 'centers.fits'
            fitsio.write(fn, [np.arange(np_)] + [given[:, k].copy() for k in range(dim)], names=['patch'] + list('xyz'[:dim]), clobber=True)
            extra['patch_centers'] = fn
        else:
            extra['patch_centers'] = given if rng.randint(2) else np.asfortranarray(given)

    def make(**more):
        """the same input once more"""
        c2 = cp.deepcopy(case)
        ex = dict(extra, **more)
        if ex.get('patch_centers', 0) is None:
            del ex['patch_centers']
        return build(tc, c2, ex)

    rec, mk = make()
    rec.update(kind=kind, np=np_, given=SL(given.ravel()) if given is not None else [], full={}, singles=[], parts=[], files=[], again=[])

    def labels(c):
        p = c.patch
        return [] if p is None else [int(p)] * c.ntot if np.isscalar(p) else [int(q) for q in p]
    try:
        c = mk()
        rec['full'] = observe(c, rng)
        if kind == 'centers' and np_ == 1 and rec['full']['patch'] == []:
            rec['full']['patch'] = [0] * c.ntot
        try:
            rec['full']['cen'] = SL(np.array(c.patch_centers).ravel())
        except RuntimeError:
            rec['full']['cen'] = []
        full = set(rec['full']['patch']) == set(range(np_))
        # one patch at a time
        if kind == 'centers' or (kind == 'col' and case['style'] != 'array'):
            for p in range(np_):
                v = dict(num=p, err='', out={})
                try:
                    v['out'] = observe(make(patch=p)[1](), rng)
                except Exception as e:
                    v['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
                rec['singles'].append(v)
        sums = [np.sum(c.w[np.array(rec['full']['patch']) == p]) for p in set(rec['full']['patch'])]
        safe = np_ > 1 and np.min(np.abs(sums)) > 1e-10
        if safe:
            low = full and bool(rng.randint(2))
            rec['parts'] = [dict(num=int(q.patch), err='', out=observe(q, rng)) for q in c.get_patches(low_mem=low)]
        if safe and full:
            # saved by one catalog, used by another one
            sd = tag + 'save'
            os.makedirs(sd)
            if rng.randint(2):
                c.write_patches(sd)
                c3 = make(**(dict(save_patch_dir=sd) if rng.randint(2) else {}))[1]() if kind != 'kmeans' else c
                if c3.save_patch_dir is None:
                    c3.read_patches(sd)
            else:
                c3 = make(save_patch_dir=sd)[1]() if kind != 'kmeans' else c
            if c3 is not c or rng.randint(2):
                rec['files'] = [dict(num=int(q.patch), err='', out=observe(q, rng)) for q in c3.get_patches(low_mem=bool(rng.randint(2)))]
        # centers written and read, or handed on
        if rec['full']['cen']:
            for what in ('.fits', '.dat', 'array'):
                v = dict(what=what, err='', patch=[], cen=[], npatch=0)
                try:
                    if what == 'array':
                        pc = c.patch_centers
                    else:
                        pc = tag + 'out' + what
                        c.write_patch_centers(pc)
                    c2 = cp.deepcopy(case)
                    c2['cols'].pop('patch', None)
                    c2['o']['npatch'] = -99
                    d = build(tc, c2, dict(extra, patch_centers=pc))[1]()
                    v.update(patch=labels(d), npatch=int(d.npatch), cen=SL(np.array(d.patch_centers).ravel()))
                    if np_ == 1 and v['patch'] == []:
                        v['patch'] = [0] * d.ntot
                except Exception as e:
                    v['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
                rec['again'].append(v)
    except Exception as e:
        import traceback
        rec['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        rec['tb'] = traceback.format_exc()[-800:]
    return [rec]
