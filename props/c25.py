"""C25: a catalog written to a file has the informative columns with its values, and reads back as the same catalog."""
import copy as cp
import os

import numpy as np

from .cat_common import *   # noqa
from . import c12
from .c11 import settle

ID = 'C25'
TRACE = 'CatWriteTrace'
MODELS = []
RULE = ('random catalogs (all coordinates, units, weights, flags, NaN, row ranges, all fields, patches by number, centers, k-means or none; '
        'arrays and files) written as ASCII (precisions 3-17), FITS and HDF5, with units changed or not, and read back')


def cases(seed, tier):
    rng = np.random.RandomState(25000 + seed)
    out = []
    while len(out) < (1400 if tier == 'quick' else 20000):
        c = c12.one(rng, 0)
        if c['bad'] or c['n'] < 5:
            continue
        keep = {q: c['o'][q] for q in ('first', 'last', 'nth', 'xyz')}
        xyz = {q: c['cols'][q] for q in 'xyz' if keep['xyz'] and q in c['cols']}
        c = settle(rng, c, ['array', 'file'][rng.randint(2)])
        c['cols'].update(xyz)
        c['o'].update(keep)
        c['kind'] = ['ASCII', 'FITS', 'HDF'][rng.randint(3)]
        c['prec'] = int([0, 3, 5, 8, 12, 15, 17][rng.randint(7)])
        c['div'] = ['none', 'col', 'col', 'centers', 'kmeans'][rng.randint(5)]
        c['h'] = int(rng.randint(1 << 30))
        out.append(c)
    return out


def raw(fn, kind):
    """(names, name -> values) read without TreeCorr"""
    if kind == 'ASCII':
        with open(fn) as f:
            lines = f.read().split('\n')
        hdr = lines[0].replace('#', ' ').split()
        rows = [q.split() for q in lines[1:] if q.strip() and not q.startswith('#')]
        return hdr, {q: [float(v[i]) for v in rows] for i, q in enumerate(hdr)}
    if kind == 'FITS':
        import fitsio
        d = fitsio.read(fn)
        return list(d.dtype.names), {q: [float(v) for v in d[q]] for q in d.dtype.names}
    import h5py
    with h5py.File(fn) as f:
        d = {q: np.array(f[q]) for q in f}
        return list(d), {q: [float(v) for v in d[q]] for q in d}


def run(case):
    import treecorr as tc
    case = cp.deepcopy(case)
    rng = np.random.RandomState(case['h'])
    tag = 'h%d/' % case['h']
    os.makedirs(tag, exist_ok=True)
    case['dir'] = tag
    cols, o, n = case['cols'], case['o'], case['n']
    sky = 'ra' in cols
    extra = {}
    if case['div'] == 'col':
        cols['patch'] = [int(q) for q in rng.randint(0, 3, n)]
    elif case['div'] == 'kmeans':
        o['npatch'] = 2
    elif case['div'] == 'centers':
        extra['patch_centers'] = rng.normal(0, 1, (3, 2 if not sky and 'z' not in cols else 3))
    prec = case['prec']
    how = rng.randint(2)
    if prec and how:
        extra['cat_precision'] = prec
    rec, make = build(tc, case, extra)
    rec.update(style=case['style'], kind=case['kind'], prec=prec or 16, wu={}, lab=[], names=[], hdr=[], file={}, back={})
    try:
        try:
            c = make()
            if rng.randint(2):
                observe(c, rng)
            lab = c.patch
        except ValueError as e:
            if 'npatch' in str(e) and case['div'] == 'kmeans':
                return []
            raise
        rec['lab'] = [] if lab is None else [int(q) for q in lab]
        rec['wu'] = dict(x='', y='', ra='', dec='')
        us = {q: u for q, u in zip(['ra', 'dec'] if sky else ['x', 'y'], [o['rau'], o['decu']] if sky else [o['xu'], o['yu']])}
        for q in us:
            us[q] = us[q] or 'radians'
        if (sky or o['xu']) and rng.randint(3) == 0:
            for q in us:
                us[q] = sorted(UNITV)[rng.randint(len(UNITV))]
                rec['wu'][q] = str(S(UNITV[us[q]]))
                c.load()
                setattr(c, q + '_units', UNITV[us[q]])
        ext = dict(ASCII=['.dat', '.txt', '.out'], FITS=['.fits', '.fit'], HDF=['.hdf5', '.hdf'])[case['kind']]
        fn = tag + 'o' + ext[rng.randint(len(ext))]
        kw = {}
        if prec and not how:
            kw['precision'] = prec
        if rng.randint(4) == 0:
            fn, kw['file_type'] = tag + 'o.cat', case['kind']
        names = c.write(fn, **kw)
        rec['names'] = list(names)
        hdr, vals = raw(fn, case['kind'])
        rec['hdr'] = hdr if case['kind'] != 'HDF' else [q for q in names if q in hdr] + [q for q in hdr if q not in names]
        rec['file'] = {q: SL(np.array(v)) for q, v in vals.items()}
        # read back
        kw = {q + '_col': q for q in names}
        if case['kind'] == 'ASCII' and rng.randint(2):
            kw = {q + '_col': i + 1 for i, q in enumerate(names)}
        if fn.endswith('.cat'):
            kw['file_type'] = case['kind']
        o2 = dict(first=1, last=-1, nth=1, xu='', yu='', rau='', decu='', flips=[], ignore=-1, ok=0, keep=True, xyz=False, sel=-1,
                  npatch=-99, rand=False, unknown=False, hints=[], hint=2)
        if sky:
            kw.update(ra_units=us['ra'], dec_units=us['dec'])
            o2.update(rau=str(S(UNITV[us['ra']])), decu=str(S(UNITV[us['dec']])))
        elif o['xu']:
            kw.update(x_units=us['x'], y_units=us['y'])
            o2.update(xu=str(S(UNITV[us['x']])), yu=str(S(UNITV[us['y']])))
        if rng.randint(2):
            d = tc.Catalog(fn, keep_zero_weight=True, verbose=0, **kw)
        else:
            d = tc.Catalog(fn, dict(kw, keep_zero_weight=True, verbose=0))
        bcols = {q: ([int(v) for v in vals[q]] if q == 'patch' else SL(np.array(vals[q]))) if q in vals else [] for q in COLS}
        rec['back'] = dict(n=len(vals[names[0]]), cols=bcols, o=o2, rows=[], out=observe(d, rng))
    except Exception as e:
        import traceback
        rec['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        rec['tb'] = traceback.format_exc()[-800:]
    return [rec]
