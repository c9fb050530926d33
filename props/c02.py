"""C02: every pair contributes the product of its field values, spins projected onto the line joining the pair."""
import numpy as np
from vt.gen import *   # noqa
from . import c01
from .pair_common import run_pair, ERR   # noqa

ID = 'C02'
TRACE = 'PairTrace'
MODELS = []
RULE = ('random catalogs x coordinate system x metric x bin type x the 17 classes with a field; all weighted means '
        'compared to the sums of projected products')
PERIODIC_KEY = 'periodic-spin-direction-not-wrapped'


def cases(seed, tier):
    rng = np.random.RandomState(2000 + seed)
    n = 3200 if tier == 'quick' else 45000
    cl = [c for c in CLASSES if c != 'NN']
    return [c01.one(rng, [cl[i % len(cl)]], big=(i % 23 == 0), exact=True) for i in range(n)]


def run(case):
    return run_pair(case, pairs=False, fields=True)


def key(case, rec, clauses):
    return PERIODIC_KEY if clauses == '{"periodic_raw"}' else ''
