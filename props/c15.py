"""C15: count_near / get_near of fields, against spec/NearOut."""
import numpy as np

from vt import gen
from vt.gen import S, SL

ID = 'C15'
TRACE = 'NearTrace'
ACT = ['Point', 'Skip', 'Whole', 'Split']
MODELS = [dict(module='NearWalk', cfg='NearWalk_line.cfg', workers=3, actions=ACT),
          dict(module='NearWalk', cfg='NearWalk_plane.cfg', workers=3, actions=ACT),
          dict(module='NearWalk', cfg='NearWalk_bad.cfg', workers=2, expect='violation'),
          dict(module='NearWalk', cfg='NearWalk_bad2.cfg', workers=2, expect='violation'),
          dict(module='NearWalk', cfg='NearWalk_deep.cfg', workers=8, thorough_only=True, timeout=4000, heap='8g'),
          dict(module='NearWalk', cfg='NearWalk_deep2.cfg', workers=8, thorough_only=True, timeout=4000, heap='8g')]
RULE = 'random catalogs (all layouts, duplicates, weights of either sign and zero), query points and radii in all units and call forms; each with several trees'
KINDS = 'NKZVGTQ'
UN = dict(rad=1., deg=np.pi / 180, hr=np.pi / 12, arcmin=np.pi / 10800, arcsec=np.pi / 648000)
FULL = dict(rad='radians', deg='degrees', hr='hours')


def cases(seed, tier):
    rng = np.random.RandomState(1500 + seed)
    out = []
    for i in range(700 if tier == 'quick' else 12000):
        s = int(rng.randint(2**31))
        r = np.random.RandomState(s)
        coords = ['flat', '3d', 'sphere', 'sphere3', 'flat', 'sphere'][i % 6]
        n = int(r.choice([1, 2, 3, 6, 15, 40, 80]))
        scale = float(10**r.uniform(-3, 2)) if coords in ('flat', '3d') else float(10**r.uniform(-3, 0.5))
        kind = str(r.choice(['uniform', 'uniform', 'clump', 'line', 'dup', 'lattice'])) if coords in ('flat', '3d') else str(r.choice(['uniform', 'clump', 'dup', 'line']))
        c = gen.cat(r, n, coords, wmode=str(r.choice(['unit', 'pos', 'neg'])), scale=scale, kind=kind)
        if n > 2 and r.rand() < 0.2:
            c['w'][r.randint(n)] = 0.0
        field = {'flat': 'flat', '3d': '3d', 'sphere': 'spherical', 'sphere3': '3d'}[coords]
        if coords == 'sphere3' and r.rand() < 0.4:
            field = 'spherical'
        p = np.array(c['p'])
        how = r.rand()
        q = p[r.randint(n)].copy() if how < 0.4 else p.mean(0)
        if how > 0.2:
            q = q + r.normal(0, 0.3 * min(scale, 1), q.shape)
        if coords == 'sphere3':
            q[2] = abs(q[2]) + 0.1
        if coords in ('sphere', 'sphere3') and how > 0.9:
            q[0] += 2 * np.pi * r.choice([-1, 1])
        if coords in ('sphere', 'sphere3'):
            q[1] = np.clip(q[1], -np.pi / 2, np.pi / 2)
        typ = scale if field != 'spherical' else min(scale, 3.)
        sep = float(typ * 10**r.uniform(-2, 0.5))
        if r.rand() < 0.05:
            sep = 0.0 if r.rand() < 0.3 else float(typ * 1e3)
        if field == 'spherical' and r.rand() < 0.1:
            sep = float(r.uniform(2.5, 3.14))
        if field == 'spherical':
            sep = min(sep, 3.1415)
        if coords == 'sphere3' and field == '3d':
            sep = float(10**r.uniform(-1, 0.7))
        out.append(dict(c=c, field=field, q=[float(x) for x in q], sep=sep, s=s))
    return out


def variants(r, scale):
    v = []
    for _ in range(4):
        k = {}
        u = r.rand()
        if u < 0.35:
            k['min_size'] = float(scale * 10**r.uniform(-2, 0))
        if r.rand() < 0.3:
            k['max_size'] = float(scale * 10**r.uniform(-1, 1))
        if r.rand() < 0.6:
            k['split_method'] = str(r.choice(['mean', 'median', 'middle', 'random']))
        if r.rand() < 0.2:
            k['brute'] = True
        if r.rand() < 0.4:
            k['min_top'] = int(r.randint(0, 6))
        if r.rand() < 0.4:
            k['max_top'] = int(r.randint(0, 8))
        v.append((KINDS[r.randint(7)], k))
    return v


def run(case):
    import coord
    import treecorr
    c = case['c']
    r = np.random.RandomState(case['s'] + 1)
    coords = c['coords']
    ru, du = ['rad', 'deg', 'hr'][r.randint(3)], ['rad', 'deg'][r.randint(2)]
    kw = gen.cat_kwargs(c, 'KZVGTQ')
    p = np.array(c['p'], dtype=float)
    if coords in ('sphere', 'sphere3'):
        p[:, 0] /= UN[ru]
        p[:, 1] /= UN[du]
        kw.update(ra=p[:, 0], dec=p[:, 1], ra_units=ru if r.rand() < 0.5 else FULL[ru], dec_units=du)
    keep = bool(r.rand() < 0.5)
    if keep:
        kw['keep_zero_weight'] = True
    cat = treecorr.Catalog(**kw)
    q = list(case['q'])
    sep = case['sep']
    qr, qd, qs = [str(x) for x in r.choice(list(UN), 3)]
    if r.rand() < 0.3:
        qs = qr
    sx = sep
    args, kk = [], {}
    form = r.randint(5)
    if coords in ('sphere', 'sphere3'):
        qq = [q[0] / UN[qr], q[1] / UN[qd]] + q[2:]
        if case['field'] == 'spherical':
            sx = sep / UN[qs]
            qq = qq[:2]
        extra = {} if case['field'] != 'spherical' else dict(sep_units=qs)
        rest = qq[2:]
        if form == 0:
            kk = dict(ra=qq[0], dec=qq[1], sep=sx, ra_units=qr, dec_units=qd, **extra)
            if rest:
                kk['r'] = rest[0]
        elif form == 1:
            args = qq + [sx]
            kk = dict(ra_units=qr, dec_units=qd, **extra)
        elif form == 2:
            cc = coord.CelestialCoord(qq[0] * UN[qr] * coord.radians, qq[1] * UN[qd] * coord.radians)
            if case['field'] == 'spherical':
                args = [cc, sx * UN[qs] * coord.radians] if r.rand() < 0.5 else [cc]
                if len(args) == 1:
                    kk = dict(sep=sx, sep_units=qs)
            else:
                args = [cc] + rest + [sx] if r.rand() < 0.5 else [cc]
                if len(args) == 1:
                    kk = dict(r=rest[0], sep=sx)
        elif form == 3:
            args = [qq[0] * UN[qr] * coord.radians, qq[1] * UN[qd] * coord.radians] + rest
            if case['field'] == 'spherical':
                args.append(sx * UN[qs] * coord.radians)
            else:
                args.append(sx)
        else:
            args = qq
            kk = dict(sep=sx, ra_units=qr, dec_units=qd, **extra)
            if rest:
                args = qq[:2]
                kk['r'] = rest[0]
        x = qq
        if coords == 'sphere3' and case['field'] == 'spherical':
            x = qq + [1.]
    else:
        x = q
        if form < 2:
            args = q + [sep]
        elif form < 4:
            kk = dict(zip('xyz', q), sep=sep)
        else:
            args, kk = q, dict(sep=sep)
    rec = dict(coords=coords, field=case['field'], pts=[SL(a) for a in p], w=SL(c['w']), keep=keep, ra_units=ru, dec_units=du, x=SL(x), x_ra_units=qr, x_dec_units=qd,
               sep=S(sx), sep_units=qs, vars=[], err='')
    scale = float(np.ptp(np.array(c['p']), axis=0).max()) + 1e-3
    import copy
    for L, k in variants(r, min(scale, 2.) if case['field'] == 'spherical' else scale):
        if case['field'] == 'spherical' and coords == 'sphere3':
            k['coords'] = 'spherical'
        v = dict(err='', count=0, list=[], opt=repr((L, k)))
        try:
            f = getattr(cat, 'get%sField' % L)(**k)
            v['list'] = [int(i) for i in f.get_near(*args, **copy.copy(kk))]
            v['count'] = int(f.count_near(*args, **copy.copy(kk)))
        except Exception as e:
            v['err'] = '%s: %s' % (type(e).__name__, e)
        rec['vars'].append(v)
    return [rec]
