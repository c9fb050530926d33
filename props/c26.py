"""C26: aperture-mass, tophat and count statistics and the three-point skewness are the documented sums over the bins."""
import os

import numpy as np
from vt.gen import *   # noqa
from .c25 import raw

ID = 'C26'
TRACE = 'DerivedTrace'
MODELS = []
HEAP = '3g'
RULE = ('GG, NG, NN and GGG correlations of random catalogs (shot and jackknife variances, units, compensated or not) x Crittenden and Schneider '
        'kernels (argument or configuration) x radii (default, below and above the bins, integers, one) x E/B x k2, k3; written files')


def cases(seed, tier):
    rng = np.random.RandomState(26000 + seed)
    out = []
    m = 1 if tier == 'quick' else 8
    for kind, n in dict(mapsq=160, gamsq=110, nmap=130, napsq=80, norm=60, map3=64).items():
        for _ in range(n * m):
            form = ['Crittenden', 'Schneider'][rng.randint(2)]
            c = dict(kind=kind, form=form, how=['arg', 'config', 'default'][rng.randint(3)], nb=int(rng.randint(1, 7)), n=int(rng.randint(6, 16)),
                     coords=['flat', 'flat', 'sphere'][rng.randint(3)], units=['', '', 'deg', 'arcmin'][rng.randint(4)],
                     rk=int(rng.randint(5)), eb=bool(rng.randint(2)), comp=int(rng.randint(4)), patched=bool(rng.randint(4) == 0),
                     bt='Log', write=int(rng.randint(6)), h=int(rng.randint(1 << 30)))
            if rng.randint(20) == 0:
                c['form'] = ['Crittenden ', 'Foo', 'schneider'][rng.randint(3)]
                c['how'] = 'arg'
            if rng.randint(12) == 0:
                c['bt'] = 'Linear'
            if kind == 'map3':
                c.update(bt=['LogSAS', 'LogRUV'][rng.randint(2)], nb=int(rng.randint(1, 3)), n=int(rng.randint(5, 9)),
                         k=[1.0, float([1, 2, 0.5, round(rng.uniform(0.3, 2), 3)][rng.randint(4)]), float([1, 1.5, round(rng.uniform(0.3, 2), 3)][rng.randint(3)])],
                         nphi=int(rng.randint(1, 4)), patched=False)
                if c['form'] == 'Schneider':
                    c['form'] = 'Crittenden'
                if c['form'] != 'Crittenden':
                    c['form'] = 'Crittenden'
            out.append(c)
    return out


def run(case):
    import treecorr as tc
    rng = np.random.RandomState(case['h'])
    kind, form, n, co = case['kind'], case['form'], case['n'], case['coords']
    cu = dict(flat=1.0, sphere=1.0)[co]
    su = dict(deg=np.pi / 180, arcmin=np.pi / 10800).get(case['units'], 1.0)
    if co == 'flat':
        su = 1.0
    sc = 1.0 if co == 'flat' else 0.2
    kw = dict(min_sep=0.05 * sc / su, max_sep=1.5 * sc / su, nbins=case['nb'], bin_type=case['bt'], bin_slop=0.1)
    if su != 1.0:
        kw['sep_units'] = case['units']
    if case['bt'] == 'LogRUV':
        kw.update(nubins=int(rng.randint(1, 3)), nvbins=1, min_v=0.1, max_v=0.7)
    if case['bt'] == 'LogSAS':
        kw.update(nphi_bins=case['nphi'], phi_units=['rad', 'deg'][rng.randint(2)])
    if case['how'] == 'config' and kind != 'map3':
        kw['m2_uform'] = form
    prec = int(rng.randint(3, 16))
    byarg = bool(rng.randint(2))
    wkind = ['ASCII', 'FITS'][rng.randint(2)]
    if not byarg:
        kw['precision'] = prec
    if case['patched']:
        kw['var_method'] = ['jackknife', 'sample'][rng.randint(2)]

    def mk(letter, m=n):
        c = cat(rng, m, co, wmode=['pos', 'unit'][rng.randint(2)], scale=sc)
        return mk_cat(tc, c, letter, **(dict(patch=np.arange(m) % 3) if case['patched'] else {}))

    def arrs(c):
        q = [c.weight if hasattr(c, 'weight') else c.weightr]
        for a in ('npairs', 'ntri', 'meanr', 'meanlogr', 'raw_xi', 'raw_xi_im', 'xip', 'xip_im', 'xim', 'xim_im', 'gam0', 'gam1', 'gam2', 'gam3',
                  'meand1', 'meand2', 'meand3', 'meanu', 'meanv', 'varxip', 'vargam0'):
            if hasattr(c, a):
                q.append(np.array(getattr(c, a)))
        return [np.array(x) for x in q]
    rec = dict(kind=kind, bt=case['bt'], form=form if case['how'] != 'default' else 'Crittenden', R=[], k=[S(q) for q in case.get('k', [1, 1, 1])], eb=case['eb'],
               c={}, ng={}, nn={}, out=[], file={}, hdr=[], fkind=wkind, prec=prec, err='', same=True, refuse=False)
    rec['refuse'] = bool(form not in ('Crittenden', 'Schneider') and kind not in ('gamsq', 'map3') and case['how'] != 'default'
                         or (case['bt'] == 'Linear'))
    call = {}
    if case['how'] == 'arg' and kind not in ('gamsq', 'map3'):
        call['m2_uform'] = form
    fn = 'h%d.%s' % (case['h'], dict(ASCII='dat', FITS='fits')[wkind])
    try:
        tot = []
        if kind in ('mapsq', 'gamsq', 'norm'):
            gg = tc.GGCorrelation(**kw)
            gg.process(mk('G'))
            tot.append(gg)
        if kind in ('nmap', 'norm'):
            ng, rg = tc.NGCorrelation(**kw), None
            g = mk('G')
            ng.process(mk('N'), g)
            if case['comp'] & 1:
                rg = tc.NGCorrelation(**kw)
                rg.process(mk('N'), g)
            tot.append(ng)
        if kind in ('napsq', 'norm'):
            a, b = mk('N'), mk('N', n + 3)
            dd, rr, dr, rd = tc.NNCorrelation(**kw), tc.NNCorrelation(**kw), None, None
            dd.process(a)
            rr.process(b)
            if np.any(rr.weight == 0):
                return []
            if case['comp'] & 1:
                dr = tc.NNCorrelation(**kw)
                dr.process(a, b)
                if case['comp'] & 2:
                    rd = tc.NNCorrelation(**kw)
                    rd.process(b, a)
            tot.append(dd)
        if kind == 'map3':
            ggg = tc.GGGCorrelation(**kw)
            ggg.process(mk('G'), **(dict(algo='triangle') if case['bt'] == 'LogSAS' and rng.randint(2) else {}))
            tot.append(ggg)
        c = tot[0]
        nom = c.rnom1d if kind == 'map3' else c.rnom
        lo, hi = kw['min_sep'], kw['max_sep']
        R = [None, np.exp(rng.uniform(np.log(lo / 3), np.log(hi * 2), rng.randint(1, 4))), np.array([hi * 0.5]),
             np.array([1, 2, 5]), nom * 0.5][case['rk']]
        if kind == 'map3':
            if R is not None and len(R) > 2:
                R = R[:2]
            if rng.randint(2) and R is not None:
                R = list(R)
        if R is not None:
            call['R'] = R
        rec['R'] = SL(nom if R is None else np.array(R, dtype=float))
        if 'gg' in locals():
            rec['c'] = dict(bs=S(gg.bin_size), r=SL(gg.meanr), xip=SL(gg.xip), xip_im=SL(gg.xip_im), xim=SL(gg.xim), xim_im=SL(gg.xim_im),
                            varxip=SL(gg.varxip), varxim=SL(gg.varxim))
        if 'ng' in locals():
            xi, xi_im, var = ng.copy().calculateXi(rg=rg)
            rec['ng'] = dict(bs=S(ng.bin_size), r=SL(ng.meanr), xi=SL(xi), xi_im=SL(xi_im), var=SL(var))
        if 'dd' in locals():
            xi, var = dd.copy().calculateXi(rr=rr, dr=dr, rd=rd)
            rec['nn'] = dict(bs=S(dd.bin_size), r=SL(dd.meanr), xi=SL(xi), var=SL(var))
        if kind == 'map3':
            q = ggg
            rec['c'] = dict(bs=S(q.bin_size), d1=SL(q.meand1.ravel()), d2=SL(q.meand2.ravel()), d3=SL(q.meand3.ravel()), u=[], v=[], phi=[],
                            ubs=0, vbs=0, phibs=0, gam=[[[S(z.real), S(z.imag)] for z in a.ravel()] for a in (q.gam0, q.gam1, q.gam2, q.gam3)],
                            vargam=[SL(a.ravel()) for a in (q.vargam0, q.vargam1, q.vargam2, q.vargam3)])
            if case['bt'] == 'LogRUV':
                rec['c'].update(u=SL(q.meanu.ravel()), v=SL(q.meanv.ravel()), ubs=S(q.ubin_size), vbs=S(q.vbin_size))
            else:
                rec['c'].update(phi=SL(q.meanphi.ravel() * dict(rad=1.0, deg=np.pi / 180)[kw['phi_units']]), phibs=S(q.phi_bin_size))
        before = [arrs(q) for q in tot]
        w = case['write'] < 3
        wkw = dict(call)
        if byarg:
            wkw['precision'] = prec
        wrote = False
        if kind == 'mapsq':
            out = list(gg.calculateMapSq(**call))
            if w:
                out += list(gg.calculateGamSq(eb=False, **{q: v for q, v in call.items() if q == 'R'}))
                rec['eb'] = False
                gg.writeMapSq(fn, **wkw)
                wrote = True
        elif kind == 'gamsq':
            if rng.randint(2):
                call['eb'] = case['eb']
            else:
                rec['eb'] = False
            out = list(gg.calculateGamSq(**call))
        elif kind == 'nmap':
            out = list(ng.calculateNMap(rg=rg, **call))
            if w:
                ng.writeNMap(fn, rg=rg, **wkw)
                wrote = True
        elif kind == 'napsq':
            out = list(dd.calculateNapSq(rr=rr, dr=dr, **dict(call, **({} if rd is None else dict(rd=rd)))))
        elif kind == 'norm':
            a, b, v = ng.calculateNMap(rg=rg, **call)
            n2, vn2 = dd.calculateNapSq(rr=rr, dr=dr, rd=rd, **call)
            m2 = gg.calculateMapSq(**call)
            out = [a, b, v, n2, vn2, m2[0], m2[4]]
            wkw.update(dict(rd=rd) if rd is not None else {})
            ng.writeNorm(fn, gg=gg, dd=dd, rr=rr, dr=dr, rg=rg, **wkw)
            wrote = True
        else:
            k = case['k']
            one = k[1] == 1 and k[2] == 1
            out = list(ggg.calculateMap3(**dict(call, **({} if one and rng.randint(2) else dict(k2=k[1], k3=k[2])))))
            if w and one:
                ggg.writeMap3(fn, **wkw)
                wrote = True
        rec['out'] = [SL(np.array(q)) for q in out]
        if wrote:
            hdr, vals = raw(fn, wkind)
            rec['hdr'], rec['file'] = hdr, {q: SL(np.array(v)) for q, v in vals.items()}
            os.remove(fn)
        after = [arrs(q) for q in tot]
        rec['same'] = all(np.array_equal(x, y, equal_nan=True) for a, b in zip(before, after) for x, y in zip(a, b))
    except Exception as e:
        if 'some patches have no data' in str(e):
            return []
        import traceback
        rec['err'] = '%s: %s' % (type(e).__name__, str(e)[:100])
        rec['tb'] = traceback.format_exc()[-600:]
    return [rec]
