"""C12: a catalog holds exactly the rows and values its input describes, from arrays and from files alike."""
import numpy as np
from .cat_common import *   # noqa

ID = 'C12'
TRACE = 'CatTrace'
MODELS = []
RULE = ('random tables x coordinates, units, field columns, weights, position weights, flags, NaNs, row ranges, sign flips, '
        'patch columns x arrays, ASCII (pandas and numpy readers), FITS and HDF5 files, column names/numbers/extensions/eval, '
        'randoms, and inputs with one thing wrong')
UN = ['arcsec', 'arcmin', 'degrees', 'hours', 'radians', 'deg', 'rad', 'hour']


def one(rng, i):
    coords = ['flat', 'flat', '3d', 'sphere', 'sphere3'][rng.randint(5)]
    n = int(rng.choice([1, 2, 5, 9, 14]))
    fields = ''.join(x for x in 'KZVGTQ' if rng.uniform() < 0.25)
    w = ''.join(x for x in 'wpf' if rng.uniform() < 0.35)
    style = ['array', 'array', 'ASCII', 'ASCIINP', 'FITS', 'HDF'][rng.randint(6)]
    cols = table(rng, n, coords, fields, w, nan=float([0, 0, 0.15][rng.randint(3)]))
    o = dict(first=1, last=-1, nth=1, xu='', yu='', rau='', decu='', flips=[], ignore=-1, ok=0, keep=False, xyz=False, sel=-1,
             npatch=-99, rand=False, unknown=False, hints=[], hint=2)
    if coords in ('flat', '3d'):
        if rng.randint(3) == 0:
            o['xu'], o['yu'] = [UN[rng.randint(len(UN))] for _ in range(2)]
    else:
        o['rau'], o['decu'] = [UN[rng.randint(len(UN))] for _ in range(2)]
    if coords.startswith('sphere') and rng.randint(8) == 0:
        o['xyz'] = True
        for q in 'xyz':
            cols[q] = [float(v) for v in rng.uniform(-2, 2, n)]
    if rng.randint(3) == 0:
        o['first'] = int(rng.randint(1, n + 1))
    if rng.randint(3) == 0:
        o['last'] = int(rng.randint(o['first'], n + 3))
    if rng.randint(4) == 0:
        o['nth'] = int(rng.randint(1, 5))
    for q in FIELDS[1:]:
        if (q in cols and rng.randint(4) == 0) or rng.randint(60) == 0:
            o['flips'].append(q)
    if 'flag' in cols:
        r = rng.randint(3)
        if r == 1:
            o['ok'] = int(rng.randint(1, 8))
        elif r == 2:
            o['ignore'] = int(rng.randint(1, 8))
    o['keep'] = bool(rng.randint(4) == 0)
    r = rng.randint(6)
    if r == 0:
        cols['patch'] = [int(q) for q in rng.randint(0, 4, n)]
        if rng.randint(2):
            o['npatch'] = int(rng.randint(1, 8))
    elif r == 1:
        cols['patch'] = [int(q) for q in rng.randint(0, 3, n)]
        o['sel'] = int(cols['patch'][rng.randint(n)])
        if style == 'array':     # (an array of patches and one patch number cannot both be given)
            del cols['patch']
            o['npatch'] = 4
    elif r == 2:
        o['sel'] = int(rng.randint(0, 3))
        o['npatch'] = int(rng.randint(3, 6))
    if style != 'array' and rng.randint(5) == 0:
        o['rand'] = True
    if rng.randint(8) == 0:
        o['hints'] = [['vark', 'varz', 'varv', 'varg', 'vart', 'varq'][rng.randint(6)]]
    bad = ''
    if rng.randint(6) == 0:
        bad = spoil(rng, cols, o, style)
    return dict(n=n, cols=cols, o=o, style=style, seed=int(rng.randint(1 << 30)), bad=bad)


def spoil(rng, cols, o, style):
    """one thing wrong"""
    r = rng.randint(11)
    if r == 0:
        q = [['x', 'y'], ['ra', 'dec']]['ra' in cols][rng.randint(2)]
        if o['xyz'] and q in cols:
            del cols['ra'], cols['dec']
        else:
            cols.pop(q, None)
    elif r == 1:
        for u in ('xu', 'rau'):
            o[u] = '' if o[u] else 'deg'
    elif r == 2:
        o['decu'] = '' if o['decu'] else 'deg'
    elif r == 3:
        o['first'] = int([0, -1][rng.randint(2)])
    elif r == 4:
        o['nth'] = int([0, -2][rng.randint(2)])
    elif r == 5:
        o['first'], o['last'] = 4, 2
    elif r == 6:
        two = [q for q in cols if q in FIELDS[1:]]
        if two:
            del cols[two[rng.randint(len(two))]]
    elif r == 7 and style == 'array':
        q = sorted(cols)[rng.randint(len(cols))]
        cols[q] = cols[q][:-1] if rng.randint(2) and len(cols[q]) > 1 else cols[q] + [1]
    elif r == 8:
        o['unknown'] = True
    elif r == 9:
        cols['r' if 'x' in cols else 'z'] = [1.0] * len(cols['x' if 'x' in cols else 'ra'])
        o['xyz'] = False
    elif r == 10 and 'patch' in cols:
        o['npatch'] = int(rng.randint(-1, 3))
    return str(r)


def cases(seed, tier):
    rng = np.random.RandomState(12000 + seed)
    return [one(rng, i) for i in range(3500 if tier == 'quick' else 50000)] + known()


def known():
    o = dict(first=1, last=-1, nth=1, xu='', yu='', rau='', decu='', flips=[], ignore=-1, ok=0, keep=False, xyz=False, sel=-1,
             npatch=-99, rand=False, unknown=False, hints=[], hint=2)
    x, y = [1.0, 2.0, 3.0, 4.0], [5.0, 7.0, 11.0, 13.0]
    return [dict(n=4, cols=dict(x=x, y=y, patch=[0, 0, 1, 1]), o=dict(o, sel=0), style='ASCII', seed=4, bad='',
                 known='ascii-comments-between-rows'),
            dict(n=4, cols=dict(x=x, y=y), o=o, style='HDF', seed=1, bad='', known='same-name-in-two-extensions')]


def key(case, rec, clauses):
    return case.get('known', '') if not rec['err'] else ''


def run(case):
    import treecorr as tc
    rec, make = build(tc, case)
    try:
        rec['out'] = observe(make())
    except Exception as e:
        import traceback
        rec['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        rec['tb'] = traceback.format_exc()[-800:]
    return [rec]
