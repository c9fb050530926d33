"""C24: configurations: text files, parameter checks and merging, and complete corr2/corr3 runs."""
import ast
import contextlib
import io
import json
import os
import runpy
import sys

import numpy as np
from vt.gen import *   # noqa
from vt.build import REPO

ID = 'C24'
TRACE = 'ConfigTrace'
MODELS = [dict(module='ConfigMC', cfg='ConfigMC.cfg', workers=4, timeout=300, actions=['Choose', 'Start', 'Output', 'Stop'])]
RULE = ('params texts with comments, lists, includes, overrides; every parameter with values of every type, as configuration and keywords; '
        'corr2/corr3 runs of every output and statistic from dict, YAML, JSON, params file and command line, compared to explicit calls')
P2 = 'nn nk kk nz kz zz nv kv vv ng kg gg nt kt tt nq kq qq'.split()
CPLX = 'zvgtq'
FLD = {'k': ['k'], 'z': ['z1', 'z2'], 'v': ['v1', 'v2'], 'g': ['g1', 'g2'], 't': ['t1', 't2'], 'q': ['q1', 'q2']}


def letter(o, i):
    if o in ('m2', 'm3', 'ggg'):
        return 'g'
    if o in ('nm', 'norm'):
        return 'ng'[i]
    return o[i]


# ------------------------------------------------------------------ cases
def text_case(rng):
    def word():
        return ['a', 'file.dat', '3', '0.5', 'true', 'x_1', '/p/q', '-1', '1e-3', '*', 'a=b'][rng.randint(11)]

    def sp():
        return ['', ' ', '  ', '\t'][rng.randint(4)]

    def line(keys):
        r = rng.randint(14)
        if r == 0:
            return sp() + ['', '#', '# a = 3', '#x'][rng.randint(4)]
        if r == 1 and rng.randint(6) == 0:
            return ['k1', 'k1 =', 'k2 = [a,b', 'k3 = # none', 'k2 = (a b'][rng.randint(5)]
        n = 1 if rng.randint(3) else int(rng.randint(2, 5))
        ws = [word() for _ in range(n)]
        if rng.randint(2):
            o, c = [('[', ']'), ('{', '}'), ('(', ')')][rng.randint(3)]
            v = o + sp() + (',' + sp()).join(ws) + sp() + c
        else:
            v = [' ', '\t', '  '][rng.randint(3)].join(ws)
        return sp() + keys[rng.randint(len(keys))] + sp() + '=' + sp() + v + sp() + (['', '# c', '#d = 4'][rng.randint(3)] if rng.randint(3) == 0 else '')
    keys = ['k%d' % i for i in range(5)]
    files = {'main': [line(keys) for _ in range(rng.randint(1, 9))]}
    if rng.randint(3) == 0:
        files['inc.params'] = [line(keys) for _ in range(rng.randint(1, 5))]
        files['main'].insert(rng.randint(len(files['main']) + 1), '+inc.params')
        if rng.randint(2):
            files['in2.params'] = [line(keys) for _ in range(rng.randint(1, 4))]
            files['inc.params'].insert(rng.randint(len(files['inc.params']) + 1), '+in2.params')
    return dict(op='text', files=files, h=int(rng.randint(1 << 30)))


NAMES = dict(
    cat=('file_type delimiter comment_marker first_row last_row every_nth x_col ra_col k_col g1_col w_col patch_col x_units y_units ra_units dec_units ignore_flag '
         'ok_flag allow_xyz ext k_ext flag_ext x_eval q2_eval extra_cols flip_z1 flip_g1 flip_g2 flip_q2 flip_v1 flip_t2 vark varz varv varg vart varq keep_zero_weight npatch '
         'kmeans_init kmeans_alt patch_centers save_patch_dir verbose log_file split_method cat_precision').split(),
    c2=('nbins bin_size min_sep max_sep sep_units bin_slop angle_slop brute verbose log_file output_dots split_method min_top max_top precision m2_uform metric '
        'bin_type min_rpar max_rpar period xperiod yperiod zperiod var_method num_bootstrap num_threads').split(),
    c3=('nbins bin_size min_sep max_sep sep_units bin_slop angle_slop nubins ubin_size min_u max_u nvbins vbin_size min_v max_v nphi_bins phi_bin_size min_phi max_phi '
        'phi_units max_n brute verbose log_file output_dots split_method min_top max_top precision metric bin_type period xperiod yperiod zperiod var_method '
        'num_bootstrap num_threads').split())
NAMES['run2'] = NAMES['cat'] + NAMES['c2'] + ['file_name', 'file_name2', 'rand_file_name', 'rand_file_name2', 'file_list', 'rand_file_list2', 'm2_file_name', 'nm_file_name',
                                             'norm_file_name'] + [p + '_file_name' for p in P2] + [p + '_statistic' for p in ('nn', 'nk', 'nz', 'nv', 'ng', 'nt', 'nq')]
NAMES['run3'] = NAMES['cat'] + NAMES['c3'] + ['file_name', 'rand_file_name', 'file_list', 'rand_file_list', 'nnn_file_name', 'kkk_file_name', 'ggg_file_name', 'm3_file_name',
                                             'nnn_statistic']
BOGUS = ['nbin', 'gg_file', 'x_column', 'flip_k', 'file_name4', 'max_seperation', 'k_units', 'nk_stat', 'min_w']
WORDS = ['true', 'False', 'YES', 'n', 'T', 'none', 'maybe', '0', '1', '2', '3', '-1', '12', '0.5', '1e-2', '-2.5', '1.', '.25', '', 'abc', 'deg', 'degrees', 'radians', 'hours', 'arcmins',
         'arc', 'd', 'FITS', 'ASCII', 'HDF5', 'HDF', 'fits', 'Parquet', 'tree', 'kmeans++', 'random', 'mean', 'middles', 'median', 'Log', 'Linear', 'TwoD', 'LogRUV', 'LogSAS', 'LogMultipole',
         'Lin', 'Euclidean', 'Rperp', 'Rlens', 'FisherRperp', 'OldRperp', 'Arc', 'Periodic', 'shot', 'jackknife', 'sample', 'bootstrap', 'marked_bootstrap', 'marked', 'compensated',
         'simple', 'comp', 'Crittenden', 'Schneider', 'Crit']


# What kinds of values a parameter takes, so that most of the values are acceptable.
KIND = {}
for q in ('file_type',):
    KIND[q] = ['FITS', 'ASCII', 'HDF5', 'HDF', 'Parquet', 'fits']
for q in ('x_units', 'y_units', 'ra_units', 'dec_units', 'sep_units', 'phi_units'):
    KIND[q] = ['deg', 'degrees', 'rad', 'radians', 'hr', 'hour', 'hours', 'arcmin', 'arcmins', 'arcsec', 'arc', 'd']
KIND['metric'] = ['Euclidean', 'Rperp', 'Rlens', 'FisherRperp', 'OldRperp', 'Arc', 'Periodic']
KIND['bin_type'] = ['Log', 'Linear', 'TwoD', 'LogRUV', 'LogSAS', 'LogMultipole']
KIND['var_method'] = ['shot', 'jackknife', 'sample', 'bootstrap', 'marked_bootstrap', 'marked']
KIND['split_method'] = ['mean', 'median', 'middle', 'random', 'middles', 'rand']
KIND['kmeans_init'] = ['tree', 'random', 'kmeans++', 'kmeans']
KIND['m2_uform'] = ['Crittenden', 'Schneider', 'Crit']
for q in NAMES['run2'] + NAMES['run3']:
    if q.endswith('_statistic'):
        KIND[q] = ['compensated', 'simple', 'comp']
    if q.startswith('flip') or q in ('allow_xyz', 'keep_zero_weight', 'kmeans_alt', 'output_dots', 'brute'):
        KIND[q] = ['true', 'False', 'YES', 'n', 'T', 'none', '0', '1', '2', '3', 'maybe', True, False, 0, 1, 2]
    if q.startswith('var') and q != 'var_method' or q in ('bin_size', 'min_sep', 'max_sep', 'bin_slop', 'angle_slop', 'min_u', 'max_v', 'min_phi', 'period', 'min_rpar', 'xperiod'):
        KIND[q] = ['0', '1', '0.5', '1e-2', '-2.5', '1.', '.25', 0.5, 1e-3, -2.0, 3, 0]
    if q in ('nbins', 'first_row', 'last_row', 'every_nth', 'ignore_flag', 'ok_flag', 'npatch', 'verbose', 'min_top', 'max_top', 'precision', 'cat_precision', 'num_bootstrap',
             'num_threads', 'max_n', 'nubins', 'nphi_bins'):
        KIND[q] = ['0', '1', '2', '3', '-1', '12', 0, 1, 2, 3, 12]


def value(rng, name, lists=True):
    r = rng.randint(40)
    if lists and (r < 4 or r < 12 and name in NAMES['cat'] and name not in NAMES['c2']):
        return [value(rng, name, False) for _ in range(rng.randint(1, 4))]
    if r == 39:
        return None
    if r < 37 and name in KIND:
        return KIND[name][rng.randint(len(KIND[name]))]
    r = rng.randint(7)
    if r == 0:
        return int(rng.randint(-2, 13))
    if r == 1 and 'YES' in KIND.get(name, ()):
        return bool(rng.randint(2))
    if r == 2 and name in KIND and 0.5 in KIND[name]:
        return float(rng.choice([0.5, 2.0, 1e-4]))
    return WORDS[rng.randint(len(WORDS))]


def check_case(rng):
    tab = ['cat', 'c2', 'c3', 'run2', 'run3'][rng.randint(5)]
    merge = bool(rng.randint(2)) and tab[0] == 'c'

    def some(names, k):
        return {q: value(rng, q) for q in sorted({names[rng.randint(len(names))] for _ in range(k)})}
    names = NAMES[tab]
    cfg = some(names, rng.randint(1, 4 if rng.randint(3) else 9))
    kw = {}
    if merge:
        cfg.update(some(NAMES['run2'] + BOGUS, rng.randint(3)))
        kw = some(list(cfg) if rng.randint(2) else names, rng.randint(3))
    if rng.randint(10) == 0:
        (kw if merge else cfg)[BOGUS[rng.randint(len(BOGUS))]] = 1
    return dict(op='check', tab=tab, merge=merge, cfg=cfg, kw=kw, h=int(rng.randint(1 << 30)))


def run_case(rng, plan=None):
    three = rng.randint(4) == 0
    sky = bool(rng.randint(3) == 0)
    k = 1 if rng.randint(3) else int(rng.randint(2, 4))
    outs = (['nnn', 'kkk', 'ggg', 'm3'] if three else P2 + ['nn', 'm2', 'nm', 'norm', 'ng', 'nk'])
    outs = sorted({outs[rng.randint(len(outs))] for _ in range(k)})
    cat2 = not three and bool(rng.randint(4)) if any(o in ('nm', 'norm') or o[0] != o[1] for o in outs) else not three and bool(rng.randint(2))
    rand1 = bool(rng.randint(2))
    rand2 = bool(rng.randint(5) > 0) if cat2 and rand1 else bool(rng.randint(12) == 0) and not three
    stats = {}
    for p in ('nnn',) if three else ('nn', 'nk', 'nz', 'nv', 'ng', 'nt', 'nq'):
        if rng.randint(3) == 0:
            stats[p] = ['compensated', 'simple'][rng.randint(2)]
    if not rand1 and rng.randint(4):
        stats = {q: 'simple' for q in stats}
    need = [sorted({letter(o, i) for o in outs} - {'n'}) for i in (0, 1)]
    has = [[f for f in 'kzvgtq' if f in need[i] and rng.randint(25) or rng.randint(8) == 0] for i in (0, 1)]
    style = ['list', 'scalar'][rng.randint(2)]
    bt = (['LogRUV', 'LogSAS', 'LogMultipole'][rng.randint(3)] if three else
          'Log' if rng.randint(2) or set(outs) & {'nm', 'norm', 'm2'} else ['Linear', 'TwoD'][rng.randint(2) if not sky else 0])
    if 'm3' in outs or 'nnn' in outs and bt == 'LogMultipole':
        bt = 'LogRUV'
    nf = int(rng.randint(1, 3)), int(rng.randint(1, 3))
    return dict(op='run', three=bool(three), sky=sky, outs=outs, cat2=cat2, rand1=rand1, rand2=rand2, stats=stats, has=has, style=style, bt=bt,
                via=['dict', 'yaml', 'json', 'params', 'cli'][rng.randint(5)], override=bool(rng.randint(2)), nfile=[nf[0], nf[0], nf[1], nf[1]],
                fmt=[['ASCII', 'FITS', 'HDF'][rng.randint(3)] for _ in range(2)], patches=bool(rng.randint(4) == 0), bad=['', '', '', '', '', '', '', '', 'key', 'value', 'both', 'nofile'][rng.randint(12)],
                h=int(rng.randint(1 << 30)))


def cases(seed, tier):
    rng = np.random.RandomState(24000 + seed)
    k = 1 if tier == 'quick' else 15
    return ([text_case(rng) for _ in range(1200 * k)] + [check_case(rng) for _ in range(2500 * k)] + [run_case(rng) for _ in range(1000 * k)])


# ------------------------------------------------------------------ runs
def tag(v):
    if isinstance(v, (list, tuple)):
        return dict(t='list', v='', items=[tag(q) for q in v])
    t = ('none' if v is None else 'bool' if isinstance(v, (bool, np.bool_)) else 'int' if isinstance(v, (int, np.integer)) else
         'float' if isinstance(v, (float, np.floating)) else 'str')
    return dict(t=t, v='' if v is None else repr(v) if t == 'float' else str(v), items=[])


def error(e):
    return '%s: %s' % (type(e).__name__, str(e)[:160])


def run(case):
    import treecorr as tc
    rng = np.random.RandomState(case['h'])
    d = 'h%d/' % case['h']
    os.makedirs(d, exist_ok=True)
    try:
        return dict(text=run_text, check=run_check, run=run_run)[case['op']](tc, case, rng, d)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def run_text(tc, case, rng, d):
    files = dict(case['files'])
    main = ['c.params', 'c.txt'][rng.randint(2)]
    files[main] = files.pop('main')
    rec = dict(op='text', files=files, main=main, err='', out={})
    for q, ls in files.items():
        with open(d + q, 'w') as f:
            f.write('\n'.join(ls) + '\n')
    here = os.getcwd()
    try:
        os.chdir(d)
        cfg = tc.read_config(main, 'params') if main.endswith('txt') or rng.randint(2) else tc.read_config(main)
        rec['out'] = {q: v if isinstance(v, list) else [v] for q, v in cfg.items()}
    except Exception as e:
        rec['err'] = error(e)
    finally:
        os.chdir(here)
    return [rec]


def run_check(tc, case, rng, d):
    from treecorr.config import check_config, merge_config
    tab = dict(cat=tc.Catalog._valid_params, c2=tc.NNCorrelation._valid_params, c3=tc.NNNCorrelation._valid_params,
               run2=tc.corr2_valid_params, run3=tc.corr3_valid_params)[case['tab']]
    cfg, kw = json.loads(json.dumps(case['cfg'])), json.loads(json.dumps(case['kw']))
    rec = dict(op='check', tab=case['tab'], merge=case['merge'], cfg={q: tag(v) for q, v in cfg.items()}, kw={q: tag(v) for q, v in kw.items()}, err='', out={})
    try:
        out = merge_config(cfg, kw, tab) if case['merge'] else check_config(cfg, tab)
        rec['out'] = {q: tag(v) for q, v in out.items()}
        if cfg != case['cfg']:
            rec['err'] = 'configuration changed'
    except Exception as e:
        rec['err'] = error(e)
    return [rec]


def header(q):
    """the line with the parameters, in one order and with 8 digits"""
    if not q.startswith('## {'):
        return q
    v = ast.literal_eval(q[3:])
    return str(sorted((a, '%.8g' % b if isinstance(b, float) else str(b)) for a, b in v.items()))


def table(fn, kind):
    if kind == 'ASCII':
        with open(fn) as f:
            ls = [q for q in f.read().split('\n') if q.strip()]
        com = [q for q in ls if q.startswith('#')]
        names = com[-1].replace('#', ' ').split()
        rows = [q.split() for q in ls if not q.startswith('#')]
        return dict(names=names, head=[header(q) for q in com[:-1]], cols={q: [S(float(r[i])) for r in rows] for i, q in enumerate(names)})
    if kind == 'FITS':
        import fitsio
        with fitsio.FITS(fn) as f:
            a = f[1].read()
        return dict(names=list(a.dtype.names), head=[], cols={q: SL(np.array(a[q], float)) for q in a.dtype.names})
    import h5py
    with h5py.File(fn) as f:
        cols = {}
        f.visititems(lambda q, o: cols.__setitem__(q, SL(np.array(o, float).ravel())) if hasattr(o, 'shape') else None)
    return dict(names=sorted(cols), head=[], cols=cols)


EXT = dict(ASCII=['.out', '.dat', '.txt'], FITS=['.fits'], HDF=['.hdf5'])


def kind_of(fn):
    return 'FITS' if fn.endswith('.fits') else 'HDF' if fn.endswith('.hdf5') else 'ASCII'


def make_data(rng, n, sky, fields, patches, rows):
    """values of one file"""
    c = dict(zip(['ra', 'dec'], [rng.uniform(0, 6, n), rng.uniform(-3, 3, n)])) if sky else dict(zip('xy', rng.uniform(0, 10, (2, n))))
    for q in c:
        c[q] = np.round(c[q], 4)
    c['w'] = np.round(rng.uniform(0.5, 2, n), 3)
    for f in fields:
        for q in FLD[f]:
            c[q] = np.round(rng.normal(0, 1, n), 3)
    if patches:
        c['patch'] = np.arange(n) % 3
    return c


def write_data(fn, fmt, c, order, delim, com):
    if fmt == 'ASCII':
        with open(fn, 'w') as f:
            f.write('%s a comment\n' % com)
            for row in zip(*[c[q] for q in order]):
                f.write((delim or ' ').join(repr(float(v)) if q != 'patch' else str(int(v)) for q, v in zip(order, row)) + '\n')
    elif fmt == 'FITS':
        import fitsio
        dt = [('c_' + q, 'i4' if q == 'patch' else 'f8') for q in order]
        a = np.zeros(len(c['w']), dtype=dt)
        for q in order:
            a['c_' + q] = c[q]
        fitsio.write(fn, a, clobber=True)
    else:
        import h5py
        with h5py.File(fn, 'w') as f:
            for q in order:
                f['c_' + q] = c[q]


def run_run(tc, case, rng, d):
    three, sky, outs = case['three'], case['sky'], case['outs']
    nums = [0] + ([1] if case['cat2'] else [])
    rands = [i for i in (0, 1) if case[['rand1', 'rand2'][i]]]
    per = case['style'] == 'list' and not three          # different layouts for the two catalogs
    lay = []
    for i in (0, 1):
        if i and not per:
            # same settings for both, but the second catalog may lack some fields
            b = dict(lay[0])
            lay.append(b)
            continue
        lay.append(dict(fmt=case['fmt'][i], delim=[None, ','][rng.randint(2)], com=['#', '%'][rng.randint(2)], first=int(rng.randint(1, 4)) if rng.randint(3) == 0 else 1,
                        nth=2 if rng.randint(4) == 0 else 1, units=[['deg', 'degrees', 'arcmin'][rng.randint(3)] for _ in 'xy'],
                        flip={q: bool(rng.randint(3) == 0) for q in ('g1', 'g2', 'v1', 'z2', 'q2', 't1')}, seed=int(rng.randint(1 << 30))))
    has = [list(case['has'][0]), list(case['has'][1])]
    allf = sorted(set(has[0]) | (set(has[1]) if 1 in nums else set()))
    pos = ['ra', 'dec'] if sky else ['x', 'y']

    def order(i, fields):
        o = pos + ['w'] + [q for f in fields for q in FLD[f]] + (['patch'] if case['patches'] else [])
        return o

    def shuffled(i, o):
        o = list(o)
        np.random.RandomState(lay[i]['seed']).shuffle(o)
        return o
    # With one setting for both catalogs, a field a catalog lacks must not shift the other columns.
    full = [shuffled(i, order(i, has[i] if per or not nums[1:] else [])) for i in (0, 1)]
    if not per and nums[1:]:
        both = [f for f in has[0] if f in has[1]]
        base = shuffled(0, order(0, both))
        full = [base + [q for f in has[i] if f not in both for q in FLD[f]] for i in (0, 1)]
    cols_of = [{q: (p + 1 if lay[i]['fmt'] == 'ASCII' else 'c_' + q) for p, q in enumerate(full[i])} for i in (0, 1)]
    cfg, data = {}, {}
    roles = [('file_name', 'file_list', 0, False), ('rand_file_name', 'rand_file_list', 0, True), ('file_name2', 'file_list2', 1, False), ('rand_file_name2', 'rand_file_list2', 1, True)]
    for j, (key, lkey, i, rand) in enumerate(roles):
        if (i not in rands) if rand else (i not in nums):
            continue
        fns = []
        data[key] = []
        for m in range(case['nfile'][j] if not case['patches'] else 1):
            n = int(rng.randint(9, 14))
            c = make_data(rng, n, sky, [] if rand else has[i], case['patches'], None)
            o = full[i]
            if rand:
                for q in o:
                    c.setdefault(q, np.zeros(n)) if lay[i]['fmt'] == 'ASCII' else None
                o = [q for q in o if q in c]
            fn = d + '%s_%d' % (key, m) + EXT[lay[i]['fmt']][0]
            write_data(fn, lay[i]['fmt'], c, o, lay[i]['delim'], lay[i]['com'])
            fns.append(fn)
            s = slice(lay[i]['first'] - 1, None, lay[i]['nth'])
            data[key].append({q: v[s] for q, v in c.items()})
        if rng.randint(5) == 0:
            with open(d + lkey, 'w') as f:
                f.write('\n'.join(fns) + '\n')
            cfg[lkey] = d + lkey
        else:
            cfg[key] = fns if len(fns) > 1 or rng.randint(4) == 0 else fns[0]

    def setting(name, vals):
        if vals[0] == vals[1] and (not per or rng.randint(2)) or len(nums) < 2 and not (per and not three and rng.randint(3) == 0):
            cfg[name] = vals[0]
        else:
            cfg[name] = list(vals)
    for q in pos + ['w'] + (['patch'] if case['patches'] else []):
        setting(q + '_col', [cols_of[i][q] for i in (0, 1)])
    for f in allf:
        for q in FLD[f]:
            if per or len(nums) < 2:
                setting(q + '_col', [cols_of[i].get(q, 0) for i in (0, 1)])
            else:
                # a single setting: invalid for a catalog that lacks the field
                cfg[q + '_col'] = cols_of[0].get(q, cols_of[1].get(q)) if lay[0]['fmt'] == 'ASCII' else 'c_' + q
            if q in lay[0]['flip']:
                setting('flip_' + q, [lay[i]['flip'][q] for i in (0, 1)])
        if rng.randint(8) == 0:
            lay[0]['var'], lay[1]['var'] = dict(lay[0].get('var', {})), dict(lay[1].get('var', {}))
            for i in (0, 1):
                lay[i]['var'][f] = float(np.round(rng.uniform(0.1, 3), 3)) if per else 0.75
            setting('var' + f, [lay[i]['var'][f] for i in (0, 1)])
    if lay[0]['fmt'] == 'ASCII' and not per and len(nums) > 1:
        # (a column number of the other catalog's fields may point at another column here)
        for f in allf:
            for i in (0, 1):
                if f not in has[i] and any(int(cfg[q + '_col']) <= len(full[i]) for q in FLD[f]):
                    return []
    if per and len(nums) > 1 and lay[0]['fmt'] == lay[1]['fmt'] and rng.randint(2) or not per or len(nums) < 2:
        if rng.randint(2):
            cfg['file_type'] = lay[0]['fmt']
    else:
        cfg['file_type'] = [lay[i]['fmt'] for i in (0, 1)]
    if any(lay[i]['fmt'] == 'ASCII' for i in nums):
        if any(lay[i]['delim'] for i in nums):
            setting('delimiter', [lay[i]['delim'] for i in (0, 1)])
        if any(lay[i]['com'] != '#' for i in nums) or rng.randint(3) == 0:
            setting('comment_marker', [lay[i]['com'] for i in (0, 1)])
    if any(lay[i]['first'] != 1 for i in nums):
        setting('first_row', [lay[i]['first'] for i in (0, 1)])
    if any(lay[i]['nth'] != 1 for i in nums):
        setting('every_nth', [lay[i]['nth'] for i in (0, 1)])
    if sky:
        for j, q in enumerate(pos):
            setting(q + '_units', [lay[i]['units'][j] for i in (0, 1)])
    # binning
    bins = dict(bin_type=case['bt'], nbins=int(rng.randint(2, 5)), bin_slop=float(rng.choice([0, 0.5, 1])), num_threads=1)
    if case['bt'] == 'TwoD':
        bins['max_sep'] = 8.0
    elif three:
        bins.update(min_sep=1.0, max_sep=8.0, nbins=2)
        bins.update(dict(LogRUV=dict(nubins=2, nvbins=2), LogSAS=dict(nphi_bins=3), LogMultipole=dict(max_n=2))[case['bt']])
    else:
        bins.update(min_sep=1.0, max_sep=8.0)
    if sky:
        bins['sep_units'] = 'deg'
        if any(u == 'arcmin' for i in nums for u in lay[i]['units']):
            bins['sep_units'] = 'arcmin'
    if rng.randint(3) == 0:
        bins['precision'] = int(rng.choice([3, 6, 10]))
    if rng.randint(4) == 0 and case['bt'] == 'Log':
        bins['m2_uform'] = 'Schneider'
    if rng.randint(4) == 0:
        bins['brute'] = True
    if rng.randint(5) == 0 and case['bt'] in ('Log', 'Linear') and sky:
        bins['metric'] = 'Arc'
    if case['patches']:
        bins['var_method'] = 'jackknife'
    if rng.randint(5) == 0:
        bins['split_method'] = ['median', 'middle'][rng.randint(2)]
    # reference catalogs
    refcat = {}
    for key, lkey, i, rand in roles:
        if key not in data:
            continue
        refcat[key] = []
        for c in data[key]:
            kw = {q: c[q] for q in pos + ['w']}
            if case['patches']:
                kw['patch'] = c['patch']
            if sky:
                kw.update(ra_units=lay[i]['units'][0], dec_units=lay[i]['units'][1])
            if not rand:
                for f in has[i]:
                    if f in lay[i].get('var', {}):
                        kw['var' + f] = lay[i]['var'][f]
                    for q in FLD[f]:
                        kw[q] = -c[q] if lay[i]['flip'].get(q) else c[q]
            refcat[key].append(kw)
    outk = {o: ['ASCII', 'ASCII', 'FITS', 'HDF'][rng.randint(4)] for o in outs}
    fn = {o: d + 'out_' + o + EXT[outk[o]][0] for o in outs}
    for o in outs:
        cfg[o + '_file_name'] = fn[o]
    for q, v in case['stats'].items():
        cfg[q + '_statistic'] = v
    cfg.update(bins)
    cfg['verbose'] = 0
    layers = [case['stats']]
    # deviations
    if case['bad'] == 'key':
        cfg[BOGUS[rng.randint(len(BOGUS))]] = 'x'
    elif case['bad'] == 'value':
        q, v = [('metric', 'Foo'), ('bin_type', 'Lug'), ('brute', 'perhaps'), ('nbins', 'three'), ('min_sep', '1.x'), ('split_method', 'mode'), ('file_type', 'CSV'), ('var_method', 'jack'),
                ('precision', '2.5'), ('flip_g1', 'sometimes'), ('nbins', [3, 4]), ('verbose', 7), ('x_units', ['deg', 'foo'])][rng.randint(13)]
        cfg[q] = v
        case = dict(case, override=False)
    elif case['bad'] == 'both':
        cfg['file_name'] = d + 'file_name_0' + EXT[lay[0]['fmt']][0]
        cfg['file_list'] = d + 'file_list'
        with open(d + 'file_list', 'w') as f:
            f.write(cfg['file_name'] + '\n')
    elif case['bad'] == 'nofile':
        cfg.pop('file_name', None)
        cfg.pop('file_list', None)
    rec = dict(op='run', three=three, cat2=case['cat2'], rand1=case['rand1'], rand2=case['rand2'], outs=outs, has=[[f for f in has[i]] for i in (0, 1)],
               bad=bool(case['bad']), layers=layers, err='', out={}, ref={}, changed=False, rtol=S(1e-9), atol={})
    # what the explicit calls give
    old = os.getcwd()
    p = bins.get('precision', 4)
    rec['rtol'] = S(1e-8 if all(k != 'ASCII' for k in outk.values()) else 10.0 ** -p * 1.001)
    try:
        if not case['bad']:
            rec['ref'] = reference(tc, case, bins, refcat, outs, outk, d)
        sz = {}
        for o in rec['ref']:
            for t in rec['ref'][o].values():
                for q, v in t['cols'].items():
                    vv = [abs(float(x)) for x in v if x not in ('nan', 'inf', '-inf') and np.isfinite(float(x))]
                    sz[q] = max([sz.get(q, 0)] + vv)
        rec['atol'] = {q: S(1e-9 * v + 1e-13) for q, v in sz.items()}
    finally:
        os.chdir(old)
    # the run
    try:
        via = case['via']
        before = json.dumps(cfg, sort_keys=True)
        if via == 'dict':
            (tc.corr3 if three else tc.corr2)(cfg)
            rec['changed'] = json.dumps(cfg, sort_keys=True) != before
        else:
            kind = via if via != 'cli' else ['yaml', 'json', 'params'][rng.randint(3)]
            if kind == 'params' and any(v == '#' or isinstance(v, list) for v in (cfg.get('comment_marker'), cfg.get('delimiter'))):
                kind = 'yaml'                   # (not expressible in a params file)
            over = {}
            if via == 'cli' and case['override']:
                for q in sorted(cfg):
                    if rng.randint(4) == 0 and not q.endswith('list') and cfg[q] is not None and not (isinstance(cfg[q], list) and any(v is None for v in cfg[q])) and \
                            q not in ('delimiter', 'comment_marker'):
                        over[q] = cfg[q]
            base = {}
            for q, v in cfg.items():
                if q in over:
                    if rng.randint(2):
                        base[q] = {'nbins': 7, 'min_sep': 0.3, 'bin_slop': 0.7, 'precision': 2, 'max_sep': 20., 'verbose': 1}.get(q, v)
                        if q.endswith('_statistic'):
                            base[q] = 'simple' if v == 'compensated' else 'compensated'
                else:
                    base[q] = v
            if any(q.endswith('_statistic') for q in over):
                rec['layers'] = [{q[:-10]: v for q, v in over.items() if q.endswith('_statistic')}, {q[:-10]: v for q, v in base.items() if q.endswith('_statistic')}]
            f = d + 'config.' + kind
            if rng.randint(4) == 0:
                f = d + 'config.txt'
            write_config(f, kind, base, rng)
            if via == 'cli':
                argv = ['corr3' if three else 'corr2', f] + ['%s=%s' % (q, text(v, rng)) for q, v in over.items()]
                if f.endswith('txt'):
                    argv += ['-f', kind]
                if rng.randint(3) == 0:
                    argv += ['-v', '0']
                sv = sys.argv
                try:
                    sys.argv = argv
                    with contextlib.redirect_stdout(io.StringIO()):
                        runpy.run_path(os.path.join(REPO, 'scripts', argv[0]), run_name='__main__')
                finally:
                    sys.argv = sv
            else:
                c = tc.read_config(f, kind) if f.endswith('txt') or rng.randint(2) else tc.read_config(f)
                (tc.corr3 if three else tc.corr2)(c)
    except (Exception, SystemExit) as e:
        import traceback
        rec['err'] = error(e)
        rec['tb'] = traceback.format_exc()[-900:]
    if not rec['err']:
        rec['out'] = {o: table(fn[o], outk[o]) for o in P2 + ['m2', 'nm', 'norm', 'nnn', 'kkk', 'ggg', 'm3'] if o in fn and os.path.exists(fn[o])}
    return [rec]


def text(v, rng):
    """a value in a params file or on the command line"""
    if isinstance(v, bool):
        return [['false', 'no', 'F'], ['true', 'Yes', 'T']][v][rng.randint(3)]
    if isinstance(v, list):
        o, c = [('[', ']'), ('{', '}'), ('(', ')')][rng.randint(3)]
        return o + ', '.join(text(q, rng) for q in v) + c
    return repr(v) if isinstance(v, float) else str(v)


def write_config(f, kind, base, rng):
    with open(f, 'w') as o:
        if kind == 'yaml':
            import yaml
            o.write(yaml.safe_dump(base))
        elif kind == 'json':
            o.write(json.dumps(base))
        else:
            for q, v in base.items():
                if v is None:
                    continue
                o.write('%s%s=%s%s%s\n' % (q, ['', ' '][rng.randint(2)], ['', ' '][rng.randint(2)], text(v, rng), ['', '  # comment'][rng.randint(2)]))


def reference(tc, case, bins, refcat, outs, outk, d):
    def cats(key):
        if key not in refcat:
            return None
        r = [tc.Catalog(verbose=0, split_method=bins.get('split_method', 'mean'), **kw) for kw in refcat[key]]
        return r[0] if len(r) == 1 else r
    if 'file_name' not in refcat:
        return {}
    c1, c2, r1, r2 = [cats(q) for q in ('file_name', 'file_name2', 'rand_file_name', 'rand_file_name2')]
    kw = dict(bins, verbose=0)
    kw3 = {q: v for q, v in kw.items() if q != 'm2_uform'}
    n = [0]

    def saved(o, write, **k):
        n[0] += 1
        f = d + 'ref%d' % n[0] + EXT[outk[o]][0]
        write(f, **k)
        return table(f, outk[o])

    def pair(name, a, b):
        c = corr_cls(tc, name.upper())(**kw)
        c.process(a, b)
        return c
    ref = {}
    for o in outs:
        ref[o] = {}
        try:
            if o in ('nnn', 'kkk', 'ggg', 'm3'):
                c = corr_cls(tc, 'GGG' if o == 'm3' else o.upper())(**kw3)
                c.process(c1)
                if o == 'm3':
                    ref[o]['simple'] = saved(o, c.writeMap3)
                elif o != 'nnn':
                    ref[o]['simple'] = saved(o, c.write)
                else:
                    ref[o]['none'] = saved(o, c.write)
                    if r1 is not None:
                        rrr, drr, rdd = [tc.NNNCorrelation(**kw3) for _ in range(3)]
                        rrr.process(r1)
                        ref[o]['simple'] = saved(o, c.write, rrr=rrr)
                        drr.process(c1, r1, ordered=False)
                        rdd.process(r1, c1, ordered=False)
                        ref[o]['comp'] = saved(o, c.write, rrr=rrr, drr=drr, rdd=rdd)
            elif o == 'nn':
                c = pair(o, c1, c2)
                ref[o]['none'] = saved(o, c.write)
                if r1 is not None and (c2 is None or r2 is not None):
                    rr = pair(o, r1, r2 if c2 is not None else None)
                    ref[o]['simple'] = saved(o, pair(o, c1, c2).write, rr=rr)
                    dr = pair(o, c1, r1 if c2 is None else r2)
                    rd = None if c2 is None else pair(o, r1, c2)
                    ref[o]['comp'] = saved(o, c.write, rr=rr, dr=dr, rd=rd)
            elif o == 'm2':
                ref[o]['simple'] = saved(o, pair('gg', c1, c2).writeMapSq)
            elif o[0] == 'n':
                name = 'ng' if o in ('nm', 'norm') else o
                if c2 is None:
                    continue
                rz = pair(name, r1, c2) if r1 is not None else None
                for var, z in (('simple', None), ('comp', rz)):
                    if var == 'comp' and z is None:
                        continue
                    if o == 'nm':
                        ref[o][var] = saved(o, pair(name, c1, c2).writeNMap, rg=z)
                    elif o == 'norm':
                        if r1 is None:
                            continue
                        gg, dd, rr, dr = pair('gg', c2, None), pair('nn', c1, None), pair('nn', r1, None), pair('nn', c1, r1)
                        ref[o][var + 'simple'] = saved(o, pair(name, c1, c2).writeNorm, gg=gg, dd=dd, rr=rr, rg=z)
                        ref[o][var + 'comp'] = saved(o, pair(name, c1, c2).writeNorm, gg=gg, dd=dd, rr=rr, dr=dr, rg=z)
                    else:
                        ref[o][var] = saved(o, pair(name, c1, c2).write, **({'r' + name[1]: z} if z is not None else {}))
            else:
                ref[o]['simple'] = saved(o, pair(o, c1, c2).write)
        except Exception as e:
            if os.environ.get('VT_DEBUG'):
                print('ref', o, repr(e))
    return ref
