"""C18: correlations written to files and read back, in histories generated from spec/RoundTrip."""
import os
import shutil
import tempfile

import numpy as np

from vt.gen import *   # noqa
from . import acc_common
from .acc_common import World, derived

ID = 'C18'
TRACE = 'RoundTripTrace'
MODELS = [dict(module='RoundTrip', cfg='RoundTrip.cfg', actions=['Make', 'Calc', 'Write', 'Load', 'Copy']),
          dict(module='RoundTrip', cfg='RoundTrip_drop.cfg')]
RULE = ('behaviours of RoundTrip of 9 operations on 2 objects and 2 files, sampled by TLC, each replayed with a random class, binning, '
        'geometry, patch division, file format and precision')
DRIVE_TIMEOUT = 600


def cases(seed, tier):
    n = 240 if tier == 'quick' else 3000
    rng = np.random.RandomState(18000 + seed)
    keep = acc_common.histories('RoundTripGen', n, seed, 'RoundTripGen', 9)
    drop = acc_common.histories('RoundTripGen_drop', n, seed, 'RoundTripGen', 9)
    out = []
    for i in range(n):
        c = acc_common.make_case(rng, None, three=bool(rng.randint(3) == 0))
        c['hist'] = (keep if c['cls'] in ('NN', 'NNN') else drop)[i]
        if c['three'] and c['npatch'] > 1 and c['kw']['bin_type'] != 'LogMultipole':
            c['local'] = False
        kw = c['kw']
        if rng.randint(3) == 0 and c['npatch'] > 1:
            kw['var_method'] = 'jackknife'
        for k, v in (('verbose', 0), ('num_bootstrap', int(rng.randint(5, 40))), ('min_top', 2), ('max_top', 6), ('split_method', 'median'),
                     ('precision', int(rng.randint(3, 12)))):
            if rng.randint(4) == 0:
                kw[k] = v
        if rng.randint(5) == 0 and c['coords'] == 'flat' and not c['three']:
            kw['metric'] = 'Euclidean' if kw['bin_type'] == 'TwoD' else 'Periodic'
            kw['metric'] == 'Periodic' and kw.update(metric='Periodic', xperiod=4000., yperiod=5000.)
        if c['coords'] == '3d' and not c['three'] and rng.randint(2):
            kw.update(min_rpar=-1000.) if rng.randint(2) else kw.update(max_rpar=1000.)
        if c['npatch'] > 1 and c['mode'] != 'auto' and c['cls'][0] != 'N' and kw['bin_type'] != 'LogMultipole' and rng.randint(3):
            # one of the places is not divided
            q = rng.randint(3 if c['mode'] == 'cross' and c['three'] else 2)
            for x in c['A'] if q == 0 else c['B'][q - 1:q]:
                x['patch'] = None
            c['local'] = False
        c['fseed'] = int(rng.randint(2**31))
        out.append(c)
    return out


NUM = ('meanr', 'meanlogr', 'weight', 'npairs', 'xi', 'xi_im', 'xip', 'xip_im', 'xim', 'xim_im', 'zeta', 'gam0', 'gam1', 'gam2', 'gam3',
       'gam0r', 'gam0i', 'gam1r', 'gam1i', 'gam2r', 'gam2i', 'gam3r', 'gam3i',
       'meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3', 'meanu', 'meanv', 'meanphi', 'ntri', 'weightr', 'weighti')
SQ = ('varxi', 'varxip', 'varxim', 'varzeta', 'vargam0', 'vargam1', 'vargam2', 'vargam3')
SKIP = ('config', 'logger', 'corr', 'rng', 'results', 'raw_xi', 'raw_xi_im', 'raw_varxi', 'nonzero')


def flat(x):
    x = np.asarray(x)
    if x.dtype.kind == 'c':
        x = np.concatenate([x.real.ravel(), x.imag.ravel()])
    return [str(S(y + 0.0)) for y in np.asarray(x, dtype=float).ravel()]


def covs(c):
    out = {}
    for m in ('jackknife', 'bootstrap', 'sample'):
        if m == 'sample' and min(c.npatch1, c.npatch2) == 0:
            continue
        k = c.copy()
        k._rng = np.random.default_rng(5)
        try:
            x = np.asarray(k.estimate_cov(m))
        except RuntimeError:
            continue        # (a patch without data)
        out['estimate_cov ' + m] = x
    try:
        out['design'] = np.asarray(c.copy().build_cov_design_matrix('jackknife')[0])
    except RuntimeError:
        pass
    return out


def observe(w, c, est, cov):
    """name -> (kind, values)"""
    out = {}
    three, name = w.three, w.name
    for n in sorted(dir(c)):
        if n.startswith('_') or n in SKIP or n in ('cov', 'cov_diag') or (n in ('xi', 'varxi', 'zeta', 'varzeta') and n not in c.__dict__ and w.name in ('NN', 'NNN')):
            continue
        if n == 'meanv' and three and c.bin_type != 'LogRUV' or n in ('meanu',) and three and c.bin_type == 'LogMultipole':
            continue
        try:
            x = getattr(c, n)
        except Exception as e:
            x = 'raises ' + type(e).__name__
        if callable(x):
            continue
        if n == 'zeta' and x is None or n == 'varzeta' and w.name == 'NNN' and c.zeta is None:
            continue
        kind = 'npatch' if n.startswith('npatch') else 'attr'
        if isinstance(x, np.ndarray) and x.dtype.kind in 'fciub' and n in NUM + SQ:
            x = flat(x)
            kind = 'num' if n in NUM else 'sq'
        elif isinstance(x, np.ndarray) and x.dtype.kind in 'fciub':
            x, kind = flat(x), 'opt'
        elif isinstance(x, (float, np.floating)) and n == 'tot':
            x, kind = [S(float(x))], 'res'
        elif isinstance(x, (int, float, np.number)) and not isinstance(x, bool):
            x, kind = [S(float(x))], kind if kind == 'npatch' else 'opt'
        else:
            x = [repr(x)[:80]]
        out[n] = dict(kind=kind, val=[str(y) for y in x])
    if cov:
        out['cov'] = dict(kind='cov', val=flat(c.cov))
        out['cov_diag'] = dict(kind='cov', val=flat(c.cov_diag))
    out['keys of results'] = dict(kind='res', val=[])
    out['keys of results']['kind'] = 'npatch'
    out['keys of results']['val'] = sorted(repr(tuple(int(i) for i in k)) for k in c.results)
    for k in sorted(c.results):
        e = c.results[k]
        for n in acc_common.DATA3 if three else acc_common.DATA2:
            if n == 'meanv' and three and c.bin_type != 'LogRUV' or n in ('meanu', 'meand1', 'meanlogd1') and three and c.bin_type == 'LogMultipole':
                continue
            a = getattr(e, n, None)
            if a is not None and np.size(a):
                out['results %r %s' % (tuple(int(i) for i in k), n)] = dict(kind='res', val=flat(a), floor='1e-9' if three and c.bin_type == 'LogMultipole' else '1e-300')     # (rounding of what is subtracted)
        if hasattr(e, 'tot'):
            out['results %r tot' % (tuple(int(i) for i in k),)] = dict(kind='res', val=[str(S(float(e.tot)))])
    if est:
        xs = covs(c)
        for n in ('getStat', 'getWeight'):
            out[n] = dict(kind='stat', val=flat(getattr(c, n)()))
        for n, x in xs.items():
            f = flat(x)
            m = max([abs(float(y)) for y in f if np.isfinite(float(y))] + [0.])
            out[n] = dict(kind='est', val=f, floor=S(1e-8 * m + 1e-30))
    if three and c.bin_type == 'LogMultipole' and c.max_n > 0:
        s = c.toSAS(nphi_bins=4)
        for n in ('weight', 'ntri', 'meand1', 'meanphi', 'zeta', 'gam0', 'gam2'):
            if n in dir(s) and getattr(s, n, None) is not None:
                f = flat(getattr(s, n))
                out['toSAS ' + n] = dict(kind='sas', val=f, floor=S(max([abs(float(y)) for y in f] + [0.])))
    if w.case['npatch'] == 1 and w.case['fseed'] % 2:
        # processing more data with what was read works as with the original
        t = c.copy()
        w.proc(t, w.pieces()[0], initialize=False, finalize=False, nthr=1)
        for n in NUM:
            if n not in ('meanu', 'meanv', 'meanphi', 'xi_im') and not (n in ('xi', 'zeta') and name[0] == 'N') and isinstance(getattr(t, n, None), np.ndarray):
                f = flat(getattr(t, n))
                out['with more ' + n] = dict(kind='sas', val=f, floor=S(max([abs(float(y)) for y in f] + [0.])))
    for n in list(out):
        out[n].setdefault('floor', '1e-300')
    return out


class Files(World):
    def randoms(self):
        """keyword arguments with the randoms for calculateXi / calculateZeta / write"""
        c, n = self.case, self.name
        if hasattr(self, '_randoms'):
            return self._randoms
        L = len(n)
        if c['kw']['bin_type'] == 'LogMultipole' or not (n in ('NN', 'NNN') or (n[0] == 'N' and hasattr(self.new(), 'calculateXi'))):
            kw = {}
        elif n == 'NN':
            kw = dict(rr=self.rand())
            if c['seed'] % 2:
                d = self.new()
                R = self.mk(c['A'][1], 'N')
                self.proc(d, (self.A[0], R))
                kw['dr'] = d
                if self.mode == 'cross':
                    d = self.new()
                    self.proc(d, (R,) + tuple(self.B))
                    kw['rd'] = d
        elif n == 'NNN':
            kw = dict(rrr=self.rand())
            if c['seed'] % 2:
                R = self.mk(c['A'][1], 'N')
                d, e = self.new(), self.new()
                if self.mode == 'cross':
                    self.proc(d, (self.A[0], R, R))
                    self.proc(e, (R, self.A[0], self.A[0]))
                else:
                    self.proc(d, (self.A[0], R))
                    self.proc(e, (R, self.A[0]))
                kw.update(drr=d, rdd=e)
        else:
            kw = {'r' + n[1].lower(): self.rand()}
        self._randoms = kw
        return kw

    def calc(self, o):
        kw = self.randoms()
        if not kw:
            return False
        (o.calculateXi if self.name != 'NNN' else o.calculateZeta)(**kw)
        return True


def run(case):
    import treecorr as tc
    w = Files(tc, case)
    name, three = w.name, w.three
    rng = np.random.RandomState(case['fseed'])
    keeps = name in ('NN', 'NNN')
    canrand = bool(w.randoms())
    patched = case['npatch'] > 1
    recs = [dict(first=True, op='new', keeps=keeps, nontrivial=len(case['hist']) > 3, err='')]
    objs = {1: None, 2: None}
    st = {1: dict(res=False, cov=False, rand=0), 2: dict(res=False, cov=False, rand=0)}
    fst, refs = {}, {}
    acc, facc = {1: 0., 2: 0.}, {}          # rounding an object, or file, has been through
    d = tempfile.mkdtemp(prefix='verif-c18-')
    try:
        for h in case['hist']:
            op, o = h[0], h[1]
            r = dict(first=False, op=op, o=o, err='')
            s = st[o]
            if op in ('calc', 'write', 'copy') and objs[o] is None or op == 'load' and h[2] not in fst or op == 'calc' and not canrand:
                continue
            try:
                if op == 'make':
                    if objs[o] is None or rng.randint(2):
                        objs[o] = w.new()
                    w.proc(objs[o], w.pieces()[h[2] - 1], nthr=1)
                    acc[o] = 0.
                    r['p'] = h[2]
                    s = dict(res=True, cov=True, rand=0)
                elif op == 'calc':
                    w.calc(objs[o])
                    s['rand'] = 1
                    r.pop('p', None)
                elif op == 'write':
                    _, _, f, pr, cv, x = h
                    if name in ('NN', 'NNN') and s['rand'] == 0 or not s['cov'] or name in ('NN', 'NNN') and s['rand'] == 2:
                        cv = 0                                   # (there is no covariance yet)
                    fmt = ['.dat', '.fits', '.hdf5', '.out'][rng.randint(4)]
                    fn = os.path.join(d, 'f%d_%d%s' % (f, len(recs), fmt))
                    kw = {}
                    prec = case['kw'].get('precision', 4)
                    if fmt == '.out' or rng.randint(4) == 0:
                        kw['file_type'] = {'.dat': 'ASCII', '.fits': 'FITS', '.hdf5': 'HDF', '.out': ['ASCII', 'FITS', 'HDF'][rng.randint(3)]}[fmt]
                    if rng.randint(3):
                        prec = kw['precision'] = int(rng.randint(3, 14))
                    ascii_ = kw.get('file_type', {'.dat': 'ASCII'}.get(fmt)) == 'ASCII'
                    give = canrand and (s['rand'] == 1 and (x or name not in ('NN', 'NNN')) or s['rand'] == 0 and x and s['res'] and rng.randint(2))
                    if give:
                        kw.update(w.randoms())
                    r.update(f=f, pr=pr, cv=cv, randgiven=bool(give), tol=S(0.6 * 10.**-prec if ascii_ else 1e-14),
                             ext=fmt + kw.get('file_type', ''))
                    objs[o].write(fn, write_patch_results=bool(pr), write_cov=bool(cv), **kw)
                    if give:
                        s['rand'] = 1
                    facc[f] = (max(acc[o], 0.6 * 10.**-prec if ascii_ else 0.), cv)
                    fst[f] = (fn, kw.get('file_type') if fmt == '.out' else None,
                              dict(res=bool(pr) and s['res'], cov=bool(cv) or (bool(pr) and s['res'] and (s['rand'] == 0 or keeps and s['rand'] == 1)),
                                   rand=0 if s['rand'] == 0 else 1 if s['rand'] == 1 and pr and s['res'] and keeps else 2))
                elif op == 'load':
                    _, _, f, how = h
                    fn, ft, fs = fst[f]
                    cls = corr_cls(tc, name)
                    base = tc.Corr3 if three else tc.Corr2
                    if how == 0:
                        objs[o] = cls.from_file(fn, file_type=ft)
                    elif how == 1:
                        objs[o] = base.from_file(fn, file_type=ft)
                    elif how == 2 or objs[o] is None:
                        objs[o] = w.new()
                        objs[o].read(fn, file_type=ft)
                    else:
                        if rng.randint(2):
                            derived(objs[o])
                        objs[o].read(fn, file_type=ft)
                    s = dict(fs)
                    acc[o] = facc[f][0]
                    r.update(f=f, how=how)
                elif op == 'copy':
                    objs[h[2]] = objs[o].copy()
                    r.update(o=h[2], q=o)
                    acc[h[2]] = acc[o]
                    o = h[2]
                    s = dict(s)
                st[o] = s
                est = patched and s['res'] and (s['rand'] == 0 and name not in ('NN', 'NNN') or s['rand'] == 1)
                cov = s['cov'] and (name not in ('NN', 'NNN') or s['rand'] > 0)
                if op == 'make':
                    if h[2] not in refs:
                        x = w.new()
                        w.proc(x, w.pieces()[h[2] - 1], nthr=1)
                        refs[h[2]] = observe(w, x, est, cov)
                    r['ref'] = refs[h[2]]
                r['obs'] = observe(w, objs[o].copy() if rng.randint(2) else objs[o], est, cov)
                if op == 'write' and not cv and acc[o] > 0:
                    # a covariance that is not stored is found anew from numbers that were rounded before
                    for x in r['obs'].values():
                        if x['kind'] == 'cov':
                            x['floor'] = S(5 * acc[o] * max([abs(float(y)) for y in x['val'] if np.isfinite(float(y))] + [0.]) + 1e-300)
            except Exception as ex:
                import traceback
                r['err'] = '%s: %s %s' % (type(ex).__name__, str(ex)[:100], ' / '.join(x.strip()[:110] for x in traceback.format_exc().splitlines()[-5:-1]))
            recs.append(r)
            if r['err']:
                return recs
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return recs
