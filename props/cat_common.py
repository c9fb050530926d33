"""Shared by the catalog properties: raw tables, files holding them, catalogs built from them and what can be seen of them."""
import os
import numpy as np
from vt.gen import *   # noqa

POS = ['x', 'y', 'z', 'ra', 'dec', 'r']
FIELDS = ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']
COLS = POS + ['w', 'wpos', 'flag'] + FIELDS + ['patch']
UNITV = dict(arcsec=np.pi / 648000, arcmin=np.pi / 10800, degrees=np.pi / 180, hours=np.pi / 12, radians=1., deg=np.pi / 180,
             rad=1., hour=np.pi / 12, hr=np.pi / 12, degree=np.pi / 180)


def L(a):
    """a column for the trace"""
    return [] if a is None else SL(a)


def table(rng, n, coords, fields='', w='', nan=0.):
    """raw columns as lists (JSON-able); coords flat/3d/sphere/sphere3; fields letters; w: w p f (weight, wpos, flag)"""
    c = {}
    if coords in ('flat', '3d'):
        for q in 'xyz'[:2 if coords == 'flat' else 3]:
            c[q] = rng.uniform(-5, 5, n)
    else:
        c['ra'] = rng.uniform(0, 6.28, n)
        c['dec'] = rng.uniform(-1.5, 1.5, n)
        if coords == 'sphere3':
            c['r'] = rng.uniform(1, 5, n)
    for q in fields:
        for col in (['k'] if q == 'K' else [q.lower() + '1', q.lower() + '2']):
            c[col] = q8(rng, -2, 2, n) if rng.randint(2) else rng.normal(0, 1, n)
    if 'w' in w:
        c['w'] = np.array(weights(rng, n, ['pos', 'pos', 'neg'][rng.randint(3)]))
        c['w'][rng.uniform(0, 1, n) < 0.12] = 0
    if 'p' in w:
        c['wpos'] = q8(rng, 0.125, 2, n)
        c['wpos'][rng.uniform(0, 1, n) < 0.12] = 0
    if nan:
        for q in c:
            if rng.uniform() < 0.5:
                c[q] = np.where(rng.uniform(0, 1, n) < nan, np.nan, c[q])
    if 'f' in w:
        c['flag'] = np.where(rng.uniform(0, 1, n) < 0.5, 0, rng.randint(0, 8, n))
    return {q: [('nan' if np.isnan(x) else float(x)) if q != 'flag' else int(x) for x in v] for q, v in c.items()}


def arr(v, col=''):
    if col in ('patch', 'flag'):
        return np.array([int(x) for x in v], dtype=int)
    return np.array([float(x) for x in v], dtype=float)


# ------------------------------------------------------------------- files
def write_table(fn, kind, cols, rng, split=False, header=True, delimiter=None, comment='#', interior=False):
    """cols: ordered dict name -> array, written to a file by independent means.  Returns col -> (name, ext)."""
    names = list(cols)
    where = {}
    if kind == 'ASCII':
        d = delimiter or ' '
        with open(fn, 'w') as f:
            if rng.randint(2):
                f.write(comment + ' some text, not the names\n')
            if header:
                f.write(comment + ' ' + d.join(names) + '\n')
            for i in range(len(next(iter(cols.values())))):
                if interior and i == 1:
                    f.write(comment + ' a remark\n')
                f.write(d.join('%d' % v[i] if v.dtype.kind == 'i' else repr(float(v[i])) for v in cols.values()) + '\n')
        for i, q in enumerate(names):
            where[q] = (q if header and rng.randint(2) else i + 1, None)
    elif kind == 'FITS':
        import fitsio
        if os.path.exists(fn):
            os.remove(fn)
        with fitsio.FITS(fn, 'rw') as f:
            parts = [names] if not split else [names[::2], names[1::2]]
            for e, part in enumerate(p for p in parts if p):
                f.write([cols[q] for q in part], names=[q.upper() if False else q for q in part], extname='PART%d' % e)
                for q in part:
                    where[q] = (q, [e + 1, 'PART%d' % e][rng.randint(2)] if split or rng.randint(2) else None)
    else:
        import h5py
        with h5py.File(fn, 'w') as f:
            parts = [names] if not split else [names[::2], names[1::2]]
            for e, part in enumerate(p for p in parts if p):
                g = f if not split and rng.randint(2) else f.create_group('part%d' % e)
                for q in part:
                    g.create_dataset(q, data=cols[q])
                    where[q] = (q, None if g is f else '/part%d' % e)
    return where


def observe(c, rng=None):
    """everything public about a catalog, asked for in a random order"""
    get = dict({q: (lambda q=q: L(getattr(c, q))) for q in POS + ['w', 'wpos'] + FIELDS}, patch=lambda: c.patch, npatch=lambda: int(c.npatch),
               coords=lambda: c.coords, ntot=lambda: int(c.ntot), nobj=lambda: int(c.nobj), sumw=lambda: S(c.sumw),
               sumw2=lambda: S(c.sumw2), nontrivial=lambda: bool(c.nontrivial_w),
               **{v: (lambda v=v: S(getattr(c, v))) for v in ('vark', 'varz', 'varv', 'varg', 'vart', 'varq')})
    names = sorted(get)
    if rng is not None:
        names = [names[q] for q in rng.permutation(len(names))]
    o = {q: get[q]() for q in names}
    p = o['patch']
    o['patch'] = [] if p is None else [int(p)] * c.ntot if np.isscalar(p) else [int(q) for q in p]
    return o


EMPTY = {q: [] for q in POS + ['w', 'wpos'] + FIELDS + ['patch']}


# ----------------------------------------------------------- building a catalog
ERR = dict(out={}, changed=[], rows=[])


def build(tc, case, extra=None):
    """case: n, cols, o, style, seed -> (record describing the input, function that makes the catalog and completes the record)"""
    rng = np.random.RandomState(case['seed'])
    o, cols, style, n = case['o'], case['cols'], case['style'], case['n']
    a = {q: arr(v, q) for q, v in cols.items()}
    kw = dict(verbose=0)
    for q, u in (('xu', 'x_units'), ('yu', 'y_units'), ('rau', 'ra_units'), ('decu', 'dec_units')):
        if o[q]:
            kw[u] = o[q]
    for q, u in (('first', 'first_row'), ('last', 'last_row'), ('nth', 'every_nth')):
        if o[q] != dict(first=1, last=-1, nth=1)[q] or rng.randint(4) == 0:
            kw[u] = o[q]
    for q in o['flips']:
        kw['flip_' + q] = True
    if o['ok']:
        kw['ok_flag'] = o['ok']
    if o['ignore'] != -1:
        kw['ignore_flag'] = o['ignore']
    if o['keep']:
        kw['keep_zero_weight'] = True
    if o['xyz']:
        kw['allow_xyz'] = True
    if o['unknown']:
        kw['no_such_parameter'] = 3
    if o['npatch'] != -99:
        kw['npatch'] = o['npatch']
    for h in o['hints']:
        kw[h] = o['hint']
    if o['sel'] >= 0:
        kw['patch'] = o['sel']
    rec = dict(ERR, n=n, cols={q: ([S(float(x)) for x in cols[q]] if q not in ('flag', 'patch') else cols[q]) if q in cols else []
                               for q in COLS}, err='', changed=[], out={})
    # (unit factors rather than names)
    kw.update(extra or {})
    rec['o'] = dict(o, **{q: (S(UNITV[o[q]]) if o[q] else '') for q in ('xu', 'yu', 'rau', 'decu')})
    for q in ('xu', 'yu', 'rau', 'decu'):
        rec['o'][q] = str(rec['o'][q])

    def make():
        import treecorr.catalog as tcat
        if style == 'array':
            inp = {}
            for q, v in a.items():
                r = rng.randint(8)
                if r == 0:
                    inp[q] = [x for x in v]
                elif r == 1:
                    inp[q] = np.repeat(v, 2)[::2]
                elif r == 2 and q not in ('x', 'patch'):
                    inp[q] = v.reshape(-1, 1)
                else:
                    inp[q] = v.copy()
            keep = {q: np.array(v) for q, v in inp.items()}
            if rng.randint(3) == 0:
                cfg = {q: kw[q] for q in list(kw) if q != 'patch' and not isinstance(kw[q], np.ndarray) and rng.randint(2)}
                for q in cfg:
                    kw.pop(q)
                if not o['unknown']:
                    cfg['min_sep'] = 1.       # keys that belong to something else are ignored in a config
                if 'no_such_parameter' in cfg:
                    kw['no_such_parameter'] = cfg.pop('no_such_parameter')
                c = tc.Catalog(config=cfg, **inp, **kw)
            else:
                c = tc.Catalog(**inp, **kw)
            rec['changed'] = [q for q in inp if not np.array_equal(np.array(inp[q]), keep[q], equal_nan=True)]
        else:
            kind = 'ASCII' if style.startswith('ASCII') else style
            fn = case.get('dir', '') + 'cat%d.%s' % (rng.randint(1000), dict(ASCII='dat', FITS='fits', HDF='hdf5')[kind])
            if rng.randint(4) == 0:
                fn, kw['file_type'] = fn.rsplit('.', 1)[0] + '.cat', kind
            names = list(a)
            rng.shuffle(names)
            evals = {}
            store = {'junk': rng.normal(0, 1, n)}
            for q in names:
                if rng.randint(7) == 0:
                    # stored under another name as something it has to be calculated from
                    if q in ('flag', 'patch'):
                        store['ev_' + q], evals[q] = a[q] + 3, 'ev_%s - 3' % q
                    else:
                        store['ev_' + q], evals[q] = a[q] * 2., '0.5*ev_%s' % q if rng.randint(2) else 'np.add(ev_%s, 0)/2' % q
                else:
                    store['c_' + q] = a[q]
            if 'c_k' in store and 'c_w' in store and rng.randint(2):
                cols['k'] = cols['w']                 # one column used for two things
                rec['cols']['k'] = rec['cols']['w']
                del store['c_k']
            opts = dict(split=bool(rng.randint(3) == 0) and not evals, header=bool(rng.randint(3)) or bool(evals))
            if kind == 'ASCII':
                if rng.randint(4) == 0:
                    opts['delimiter'] = kw['delimiter'] = ','
                if rng.randint(4) == 0:
                    opts['comment'] = kw['comment_marker'] = '%'
                opts['interior'] = bool(o['first'] == 1 and o['last'] == -1 and o['nth'] == 1 and o['sel'] < 0 and 'h' not in case and rng.randint(4) == 0
                                        or case.get('known') == 'ascii-comments-between-rows')
            if case.get('known') == 'same-name-in-two-extensions':
                import h5py
                with h5py.File(fn, 'w') as f:
                    for q in store:
                        f.create_group(q).create_dataset('value', data=store[q])
                where = {q: ('value', '/' + q) for q in store}
            else:
                where = write_table(fn, kind, store, rng, **opts)
            if 'c_k' not in store and 'c_w' in store:
                where['c_k'] = where['c_w']
            for q in names:
                if q in evals:
                    kw[q + '_eval'] = evals[q]
                else:
                    name, ext = where['c_' + q]
                    if ext is not None and case.get('known') == 'same-name-in-two-extensions':
                        name = 'value'
                    kw[q + '_col'] = name
                    if ext is not None:
                        kw[q + '_ext'] = ext
            if evals:
                kw['extra_cols'] = ['ev_' + q for q in evals]
                if kind == 'HDF' and where['junk'][1]:
                    kw['ext'] = where['junk'][1]
            num = 0
            if rng.randint(5) == 0:
                # one of several catalogs described by lists in a configuration
                num = int(rng.randint(2))
                for q in list(kw):
                    if q.endswith('_col') or q in ('first_row', 'every_nth') or q.startswith('flip_'):
                        other = kw[q] if q.endswith('_col') else 1 if q != 'flip_' else False
                        kw[q] = [kw[q], other] if num == 0 else [other, kw[q]]
            save = tcat.PandasReader
            if style == 'ASCIINP':
                def none(*a_, **k_):
                    raise ImportError('no pandas')
                tcat.PandasReader = none
            try:
                if rng.randint(3) == 0 and not o['unknown']:
                    patch = {q: kw.pop(q) for q in list(kw) if q == 'patch' or isinstance(kw[q], np.ndarray)}
                    c = tc.Catalog(fn, dict(kw, min_sep=1.), num=num, is_rand=o['rand'], **patch)
                else:
                    c = tc.Catalog(fn, num=num, is_rand=o['rand'], **kw)
            finally:
                tcat.PandasReader = save
        return c
    return rec, make
