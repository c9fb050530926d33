"""C10: histories of process / add / clear / copy / finalise, generated from spec/Accum, replayed on real correlations."""
import numpy as np

from vt import behav
from . import acc_common, c01
from .acc_common import run   # noqa

ID = 'C10'
TRACE = 'AccumTrace'
MODELS = [dict(module='Accum', cfg='Accum.cfg', actions=['Process', 'Add', 'Clear', 'Copy', 'Create', 'Finalize', 'Look'])]
RULE = ('behaviours of Accum of 12 operations on up to 3 objects over 3 pieces of data, sampled by TLC, each replayed with a random '
        'class, binning, geometry and patch division')
DRIVE_TIMEOUT = 600


def cases(seed, tier):
    n = 300 if tier == 'quick' else 4000
    rng = np.random.RandomState(10000 + seed)
    return [acc_common.make_case(rng, h) for h in acc_common.histories('AccumGen', n, seed)] + c01.known('c10_lsas')


def key(case, rec, clauses):
    return case.get('known', '')
