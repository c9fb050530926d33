"""Shared by the two-point properties: running one correlation and recording it for PairTrace."""
import numpy as np
from vt.gen import *   # noqa

UNITS = {'': 1.0, 'radians': 1.0, 'degrees': np.pi / 180, 'arcmin': np.pi / 10800, 'arcsec': np.pi / 648000,
         'hours': np.pi / 12}
ERR = dict(kind='pair', err='')


def binspec(b, unit, bt):
    """min, max, bin size, nbins in natural units, computed from the user's parameters (not from the code)."""
    mn, mx, nb, bs = b.get('min_sep'), b.get('max_sep'), b.get('nbins'), b.get('bin_size')
    if bt == 'TwoD':
        if nb is None:
            nb = int(np.ceil(2 * mx / bs - 1e-12))
            bs = 2 * mx / nb
        elif bs is None:
            bs = 2 * mx / nb
        else:
            mx = nb * bs / 2
        mn = mn or 0
        return mn * unit, mx * unit, bs * unit, nb
    if bt == 'Log':
        if nb is None:
            nb = int(np.ceil(np.log(mx / mn) / bs - 1e-12))
            bs = np.log(mx / mn) / nb
        elif bs is None:
            bs = np.log(mx / mn) / nb
        elif mx is None:
            mx = mn * np.exp(nb * bs)
        else:
            mn = mx * np.exp(-nb * bs)
        return mn * unit, mx * unit, bs, nb
    if nb is None:
        nb = int(np.ceil((mx - mn) / bs - 1e-12))
        bs = (mx - mn) / nb
    elif bs is None:
        bs = (mx - mn) / nb
    elif mx is None:
        mx = mn + nb * bs
    else:
        mn = mx - nb * bs
    return mn * unit, mx * unit, bs * unit, nb


def run_pair(case, pairs=True, fields=True):
    import treecorr as tc
    name = case['cls']
    corr = corr_cls(tc, name)(**case['kw'])
    cats1 = mk_cat(tc, case['c1'], name[0], **case.get('ckw1', {}))
    if case['auto']:
        corr.process(cats1, num_threads=case.get('nt', 1))
    else:
        cats2 = mk_cat(tc, case['c2'], name[1], **case.get('ckw2', {}))
        corr.process(cats1, cats2, num_threads=case.get('nt', 1))
    return [pair_record(case, corr, pairs, fields)]


def bin_record(kw):
    bt = kw.get('bin_type', 'Log')
    unit = UNITS[kw.get('sep_units', '')]
    metric = kw.get('metric', 'Euclidean')
    mn, mx, bs, nb = binspec({k: kw.get(k) for k in ('min_sep', 'max_sep', 'nbins', 'bin_size')}, unit, bt)
    per = kw.get('period', 0)
    per = [kw.get('xperiod', per), kw.get('yperiod', per), kw.get('zperiod', per)]
    if metric != 'Periodic':
        per = [0, 0, 0]
    return dict(type=bt, metric=metric, nbins=nb, min=S(mn), max=S(mx), bs=S(bs),
                minrpar=S(kw['min_rpar']) if 'min_rpar' in kw else '-inf',
                maxrpar=S(kw['max_rpar']) if 'max_rpar' in kw else 'inf', per=[S(x) for x in per])


def pair_out(corr, name):
    xi, xi_im, xim, xim_im = xi_arrays(corr, name)
    return dict(npairs=SL(corr.npairs), weight=SL(corr.weight), meanr=SL(corr.meanr), meanlogr=SL(corr.meanlogr),
                xi=xi, xi_im=xi_im, xim=xim, xim_im=xim_im)


def pair_record(case, corr, pairs=True, fields=True):
    """everything PairOut needs to judge one finished correlation"""
    name, kw, auto = case['cls'], case['kw'], case['auto']
    bn = bin_record(kw)
    bn['zero'] = bool(not auto and bn['type'] == 'Linear' and bn['min'] == 0)
    co = case['c1']['coords']
    c2 = case['c1'] if auto else case['c2']
    return dict(kind='pair', pairs=pairs, fields=fields, coords=co, coords2=c2['coords'], bn=bn, l1=name[0],
                l2=name[1], auto=auto, c1=pts(case['c1']), c2=[] if auto else pts(c2), out=pair_out(corr, name),
                unit=S(UNITS[kw.get('sep_units', '')]), chord=(co == 'sphere' and bn['metric'] == 'Euclidean'),
                tot=[S(corr.tot)] if name == 'NN' else [], meanexact=case.get('meanexact', True),
                skipim=(auto and bn['type'] != 'TwoD' and name[0] not in 'NK'), edge=case.get('edge', False))
