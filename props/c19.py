"""C19: histories in which objects are copied in every way, generated from spec/Accum, replayed on real correlations; and what
equality depends on."""
import copy
import pickle

import numpy as np

from vt.gen import *   # noqa
from . import acc_common
from .acc_common import DATA2, DATA3

ID = 'C19'
TRACE = 'AccumTrace'
MODELS = [dict(module='Accum', cfg='Accum.cfg', actions=['Process', 'Add', 'Clear', 'Copy', 'Create', 'Finalize', 'Look']),
          dict(module='AccumRefs', cfg='AccumRefs.cfg'),
          dict(module='AccumRefs', cfg='AccumRefs_bad1.cfg', expect='violation'),
          dict(module='AccumRefs', cfg='AccumRefs_bad2.cfg', expect='violation')]
RULE = ('behaviours of Accum of 12 operations with many copies, sampled by TLC, each replayed with a random class, binning, geometry '
        'and patch division; equality after changing each array or option alone')
DRIVE_TIMEOUT = 600


def cases(seed, tier):
    n = 240 if tier == 'quick' else 4000
    rng = np.random.RandomState(19000 + seed)
    return [acc_common.make_case(rng, h) for h in acc_common.histories('AccumGen_copy', n, seed)]


COPIES = [lambda x: x.copy(), copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))]


def options(kw, three):
    """changes of one option that make a different correlation"""
    bt = kw['bin_type']
    out = [('nbins', dict(nbins=kw['nbins'] + 1)), ('max_sep', dict(max_sep=kw['max_sep'] * 1.25)),
           ('bin_slop', dict(bin_slop=0.25)), ('angle_slop', dict(angle_slop=0.125))]
    if 'min_sep' in kw:
        out.append(('min_sep', dict(min_sep=kw['min_sep'] * 0.75)))
    if not three and bt in ('Log', 'Linear'):
        out.append(('bin_type', dict(bin_type='Linear' if bt == 'Log' else 'Log')))
    if not three:
        out.append(('min_rpar', dict(min_rpar=-3.)))
        out.append(('max_rpar', dict(max_rpar=7.)))
    for a in 'xyz':
        out.append((a + 'period', {a + 'period': 50.}))
    out.append(('sep_units', dict(sep_units='deg' if kw.get('sep_units') != 'deg' else 'arcmin')))
    for k in ('nubins', 'nvbins', 'nphi_bins', 'max_n'):
        if k in kw:
            out.append((k, {k: kw[k] + 1}))
    if bt == 'LogRUV':
        out += [('min_u', dict(min_u=0.0625)), ('max_u', dict(max_u=0.875)), ('min_v', dict(min_v=0.0625)), ('max_v', dict(max_v=0.875))]
    if bt == 'LogSAS':
        out += [('min_phi', dict(min_phi=0.25, phi_units='rad')), ('max_phi', dict(max_phi=2.5, phi_units='rad'))]
    return out


def sameness(case):
    """(what was changed, whether that is a difference, and what == said)"""
    import treecorr as tc
    w = acc_common.World(tc, case)
    rng = np.random.RandomState(case['seed'] + 1)
    c = w.new()
    w.proc(c, w.pieces()[0])
    out = []

    def put(what, changed, a, b):
        out.append(dict(what=what, changed=changed, eq=bool(a == b)))
        out.append(dict(what=what + ' (reversed)', changed=changed, eq=bool(b == a)))
        out.append(dict(what=what + ' (not equal)', changed=changed, eq=not (a != b)))
    for m in COPIES:
        put('copy', False, c, m(c))
    d = w.new()
    w.proc(d, w.pieces()[0], nthr=case['nthr'])
    if case['nthr'] == 1:
        put('same calculation', False, c, d)
    for n, a in acc_common.arrays(c):
        d = c.copy()
        x = getattr(d, n)
        k = int(rng.randint(x.size))
        x.reshape(-1)[k] += 0.5
        put(n, True, c, d)
    put('class', True, c, corr_cls(tc, 'KK' if case['cls'] != 'KK' else 'NN')(min_sep=1, max_sep=2, nbins=2))
    e = w.new()
    put('empty', False, e, w.new())
    for n, kw in options(case['kw'], case['three']):
        try:
            x = corr_cls(tc, case['cls'])(**dict(case['kw'], **kw))
        except Exception:
            continue
        put('option ' + n, True, e, x)
    for n, kw in (('num_threads', dict(num_threads=3)), ('verbose', dict(verbose=0)), ('precision', dict(precision=3)),
                  ('output_dots', dict(output_dots=False)), ('var_method', dict(var_method='jackknife')), ('num_bootstrap', dict(num_bootstrap=7))):
        put('option ' + n, False, e, corr_cls(tc, case['cls'])(**dict(case['kw'], **kw)))
    put('not a correlation', True, c, 3)
    return out


def run(case):
    recs = acc_common.run(case)
    if recs[-1]['err']:
        return recs
    r = dict(first=False, op='same', o=1, err='', dig=recs[-1]['dig'], adig=recs[-1]['adig'], eq=[])
    try:
        r['pairs'] = sameness(case)
    except Exception as ex:
        r['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:100])
    return recs + [r]
