"""Replaying behaviours of spec/Accum (generated by TLC) with real correlation objects, and recording what happens.
Shared by C10 and C19."""
import copy
import hashlib
import pickle

import numpy as np

from vt import behav
from vt.gen import *   # noqa
from . import tri_common

CROSS = [n for n in CLASSES if n[0] != n[1]]
SYM = [n for n in CLASSES if n[0] == n[1]]
DATA2 = ('_xi1', '_xi2', '_xi3', '_xi4', 'meanr', 'meanlogr', 'weight', 'npairs')
DATA3 = ('_z1', '_z2', '_z3', '_z4', '_z5', '_z6', '_z7', '_z8', 'meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3',
         'meanu', 'meanv', 'weightr', 'weighti', 'ntri')


def histories(cfg, n, seed, module='AccumGen', depth=12):
    """n behaviours that do not share all but their last step"""
    b = behav.load(module, cfg, simulate=n, depth=depth, seed=seed)
    rng = np.random.RandomState(seed)
    rng.shuffle(b)
    seen, out = set(), []
    for h in b:
        k = repr(h[:-1])
        if k not in seen:
            seen.add(k)
            out.append(h)
    return [out[i % len(out)] for i in range(n)]


def make_case(rng, hist, three=None):
    three = bool(rng.randint(4) == 0) if three is None else three
    case = dict(hist=hist, three=three, seed=int(rng.randint(2**31)))
    if three:
        name = tri_common.CLASSES3[rng.randint(3)]
        bt = ['LogRUV', 'LogSAS', 'LogMultipole'][rng.randint(3)]
        kw = tri_common.binning3(rng, bt, 0.5, 8.)
        kw['nbins'] = min(kw['nbins'], 3)
        for k in ('nubins', 'nvbins', 'nphi_bins'):
            if k in kw:
                kw[k] = min(kw[k], 3)
        coords, sc, ns = 'flat', dict(scale=5.0), (3, 7)
        kw.update(brute=True) if rng.randint(2) else kw.update(bin_slop=0, angle_slop=0)
        mode = ['auto', 'cross12', 'cross'][rng.randint(3)]
        case.update(ordered=True if mode != 'auto' else True, algo='triangle' if bt == 'LogSAS' else None)
    else:
        name = CLASSES[rng.randint(len(CLASSES))] if rng.randint(3) else 'NN'
        coords = ['flat', 'flat', 'sphere', '3d'][rng.randint(4)]
        sc = dict(scale=5.0) if coords != 'sphere' else dict(scale=0.4, center=(float(rng.uniform(0, 6.28)), float(rng.uniform(-1.1, 1.1))))
        ns = (4, 12)
        bt = ['Log', 'Log', 'Linear', 'TwoD'][rng.randint(4)] if coords == 'flat' else ['Log', 'Linear'][rng.randint(2)]
        lo, hi = (0.05, 0.8) if coords == 'sphere' else (0.5, 9.)
        kw = dict(bin_type=bt)
        su = ''
        if coords == 'sphere':
            su = ['', 'arcmin', 'deg'][rng.randint(3)]
            u = {'': 1, 'arcmin': np.pi / 10800, 'deg': np.pi / 180}[su]
            lo, hi = lo / u, hi / u
            if su:
                kw['sep_units'] = su
        if bt == 'TwoD':
            kw.update(max_sep=hi, nbins=int(rng.randint(1, 4)))
        else:
            kw.update(min_sep=lo, max_sep=hi * float(rng.uniform(0.6, 1)), nbins=int(rng.randint(1, 6)))
        kw.update([dict(brute=True), dict(bin_slop=0, angle_slop=0), dict(brute=1, bin_slop=0, angle_slop=0)][rng.randint(3)])
        mode = 'auto' if name in SYM and rng.randint(2) else 'cross'
    npatch = int([1, 1, 2, 3][rng.randint(4)]) if not three else int([1, 1, 2][rng.randint(3)])
    case.update(cls=name, kw=kw, mode=mode, npatch=npatch, coords=coords, local=bool(npatch > 1 and rng.randint(3) == 0),
                nthr=int([1, 1, 2][rng.randint(3)]))
    if three and bt == 'LogMultipole':
        case['local'] = True
    if case['local'] and three and mode == 'auto' and bt != 'LogMultipole':
        case['local'] = False
    ncat = 2 if mode == 'auto' and not three else 3
    case['A'] = [cat(rng, int(rng.randint(ns[0], ns[1])), coords, **sc) for _ in range(ncat)]
    case['B'] = [cat(rng, int(rng.randint(ns[0], ns[1])), coords, **sc) for _ in range(2)]
    for c in case['A'] + case['B']:
        n = len(c['p'])
        c['patch'] = [int(x) for x in np.arange(n) % npatch] if npatch > 1 else None
    return case


def arrays(c):
    skip = () if not hasattr(c, 'weightr') or c.bin_type == 'LogRUV' else ('meanv',) if c.bin_type == 'LogSAS' else ('meanu', 'meanv')
    return [(n, np.asarray(getattr(c, n))) for n in (DATA3 if hasattr(c, 'weightr') else DATA2)
            if n not in skip and hasattr(c, n) and getattr(c, n) is not None and np.size(getattr(c, n)) > 0]


def hsh(items):
    m = hashlib.md5()
    for n, a in items:
        m.update(n.encode())
        m.update((a + 0.0).tobytes())
    return m


def adig(c):
    """what == compares"""
    m = hsh(arrays(c))
    m.update(repr(c.coords).encode())
    return m.hexdigest()[:10]


def rkeys(c):
    return [k for k in c.results]


def digest(c, deep=True):
    """every observable that does not need computing"""
    m = hsh(arrays(c))
    t = [c.coords, c.metric, c.npatch1, c.npatch2, getattr(c, 'npatch3', 0), getattr(c, 'tot', 0), repr(c)]
    m.update(repr(t).encode())
    if deep:
        for k in sorted(c.results):
            e = c.results[k]
            m.update(repr((k, getattr(e, 'tot', 0), e.npatch1 if hasattr(e, 'npatch1') else 0)).encode())
            m.update(digest_entry(e))
    return m.hexdigest()[:10]


def digest_entry(e):
    return hsh([(n, a) for n, a in arrays(e)]).digest()


def fields(c, bt, three, auto=False):
    """name -> (kind, weight name, array)"""
    out = {}

    def add(n, kind, wf, a):
        a = np.asarray(a)
        if a.size:
            if a.dtype.kind == 'c':
                out[n], out[n + '_im'] = (kind, wf, a.real.ravel()), (kind, wf, a.imag.ravel())
            else:
                out[n] = (kind, wf, a.ravel())
    if not three:
        for n in ('weight', 'npairs'):
            add(n, 'sum', 'weight', getattr(c, n))
        for n in ('_xi1', '_xi2', '_xi3', '_xi4'):
            if n != '_xi2' or not auto:     # (the sign depends on which object of a pair comes first)
                add(n, 'norm', 'weight', getattr(c, n))
        add('meanr', 'len', 'weight', c.meanr)
        add('meanlogr', 'log', 'weight', c.meanlogr)
    else:
        add('weightr', 'sum', 'weightr', c.weightr)
        mp = bt == 'LogMultipole'
        z = 'sum' if mp else 'norm'
        for n in DATA3[:8]:
            add(n, z, 'weightr', getattr(c, n))
        if mp:
            add('weighti', 'sum', 'weightr', c.weighti)
            n0 = c.max_n
            add('w0', 'sum', 'w0', c.weightr[:, :, n0])
            add('ntri', 'sum', 'w0', c.ntri[:, :, n0])
            for n in ('meand2', 'meand3'):
                add(n, 'len', 'w0', getattr(c, n)[:, :, n0])
                add(n.replace('meand', 'meanlogd'), 'log', 'w0', getattr(c, n.replace('meand', 'meanlogd'))[:, :, n0])
        else:
            add('ntri', 'sum', 'weightr', c.ntri)
            for n in ('meand1', 'meand2', 'meand3'):
                add(n, 'len', 'weightr', getattr(c, n))
                add(n.replace('meand', 'meanlogd'), 'log', 'weightr', getattr(c, n.replace('meand', 'meanlogd')))
            add('meanu', 'norm', 'weightr', c.meanu)
            if bt == 'LogRUV':
                add('meanv', 'norm', 'weightr', c.meanv)
    if hasattr(c, 'tot'):
        out['tot'] = ('sum', 'weight' if not three else 'weightr', np.array([c.tot]))
    return out


RES2 = ('_xi1', '_xi3', 'weight', 'npairs', 'meanlogr')
RES3 = ('_z1', '_z3', 'weightr', 'ntri', 'meand2')


def res_arr(e, three):
    out = {}
    for n in (RES3 if three else RES2):
        a = getattr(e, n, None)
        if a is not None and np.size(a):
            a = np.asarray(a)
            out[n] = SL(a.real)
            if a.dtype.kind == 'c':
                out[n + '_im'] = SL(a.imag)
    if hasattr(e, 'tot'):
        out['tot'] = SL([e.tot])
    return out


def results(c, three):
    return [dict(key=repr(tuple(int(x) for x in k)), arr=res_arr(c.results[k], three)) for k in sorted(c.results)]


class World:
    def __init__(self, tc, case):
        self.tc, self.case = tc, case
        self.name, self.three, self.mode = case['cls'], case['three'], case['mode']
        L = self.name
        self.A = [self.mk(c, L[0]) for c in case['A']]
        self.B = [self.mk(c, L[1 + i]) for i, c in enumerate(case['B'][:len(L) - 1])]

    def mk(self, c, letter, **kw):
        return mk_cat(self.tc, c, letter, patch=c['patch'], **kw)

    def new(self):
        return corr_cls(self.tc, self.name)(**self.case['kw'])

    def pieces(self):
        A, B = self.A, self.B
        if self.mode == 'auto':
            return [(A[0],), (A[1],), (A[0], A[1])] if not self.three else [(A[0],), (A[1],), (A[2],)]
        if self.mode == 'cross12':
            return [(a, B[0]) for a in A]
        return [(a,) + tuple(B) for a in A]

    def proc(self, c, cats, nthr=None, **kw):
        if self.case['local']:
            kw['patch_method'] = 'local'
        elif self.case['npatch'] > 1:
            kw['patch_method'] = 'global'
        if self.three and self.case['algo']:
            kw['algo'] = self.case['algo']
        if self.three and len(cats) > 1:
            kw['ordered'] = self.case['ordered']
        c.process(*cats, num_threads=nthr or self.case['nthr'], **kw)

    def low(self, c, cats):
        if len(cats) == 1:
            c.process_auto(cats[0], num_threads=1)
        elif self.three and len(cats) == 2:
            c.process_cross12(cats[0], cats[1], ordered=self.case['ordered'], num_threads=1)
        elif self.three:
            c.process_cross(*cats, ordered=self.case['ordered'], num_threads=1)
        else:
            c.process_cross(*cats, num_threads=1)

    def lowable(self):
        return not self.case['local'] and (not self.three or hasattr(self.new(), 'process_auto'))

    def rand(self):
        """a correlation with the objects of the first position taken as randoms"""
        c = self.case
        R = self.mk(dict(c['A'][1], p=c['A'][1]['p']), 'N')
        x = self.new()
        self.proc(x, (R,) if self.mode == 'auto' else (R,) + tuple(self.B))
        return x

    def cats_of(self, cats):
        """the objects in each position, for the variances"""
        c = self.case
        n = 3 if self.three else 2
        ids = {id(a): d for a, d in zip(self.A + self.B, c['A'] + c['B'])}
        if len(cats) == 1:
            cats = cats * n
        elif len(cats) == 2 and n == 3:
            cats = (cats[0], cats[1], cats[1])
        return [[dict(w=S(w), v=[S(v[0]), S(v[1])]) for w, v in zip(ids[id(x)]['w'], ids[id(x)]['v'])] for x in cats]


def derived(c):
    """look at everything that is computed on demand"""
    out = []
    for n in ('varxi', 'varxip', 'varxim', 'raw_varxi', 'varzeta', 'vargam0', 'vargam1', 'vargam2', 'vargam3', 'cov', 'cov_diag',
              'nonzero', 'meanphi', 'z', 'xi_im'):
        try:
            out.append(getattr(c, n))
        except Exception:
            pass
    for f in (lambda: c.getStat(), lambda: c.getWeight(), lambda: repr(c), lambda: str(c),
              lambda: c.estimate_cov('jackknife') if c.npatch1 > 1 or c.npatch2 > 1 else 0,
              lambda: c.estimate_cov('bootstrap') if c.npatch1 > 1 or c.npatch2 > 1 else 0):
        try:
            out.append(f())
        except Exception:
            pass
    return out


def var_list(c, name, three):
    if three:
        if c.bin_type == 'LogMultipole' or name == 'NNN':
            return []
        if name == 'KKK':
            return SL(c.varzeta)
        return SL(np.concatenate([x.ravel() for x in (c.vargam0, c.vargam1, c.vargam2, c.vargam3)]))
    if name == 'NN':
        return []
    if hasattr(c, 'varxip'):
        return SL(np.concatenate([c.varxip.ravel(), c.varxim.ravel()]))
    return SL(c.varxi)


def cov_of(w, c, obj_rand):
    """a resampled covariance of what the object holds (changes NN objects: they get randoms)"""
    try:
        if w.name == 'NN':
            c.calculateXi(rr=obj_rand)
        x = c.estimate_cov('jackknife')
        c._rng = np.random.default_rng(5)
        y = c.estimate_cov('bootstrap')
        return SL(np.concatenate([np.asarray(x).real.ravel(), np.asarray(y).real.ravel()])), ''
    except Exception as e:
        return [], type(e).__name__


def bad_additions(w, c, k):
    """(name, thunk): additions that must be refused"""
    tc, kw = w.tc, dict(w.case['kw'])
    other = {'NN': 'KK', 'KK': 'NN', 'NNN': 'KKK', 'KKK': 'NNN', 'GGG': 'KKK'}.get(w.name, 'NN')
    okw = {a: b for a, b in kw.items()}
    opts = [('class', lambda: corr_cls(tc, other)(**okw)),
            ('nbins', lambda: corr_cls(tc, w.name)(**dict(kw, nbins=kw['nbins'] + 1))),
            ('max_sep', lambda: corr_cls(tc, w.name)(**dict(kw, max_sep=kw['max_sep'] * 1.1))),
            ('not_a_correlation', lambda: 'x')]
    if 'min_sep' in kw:
        opts.append(('min_sep', lambda: corr_cls(tc, w.name)(**dict(kw, min_sep=kw['min_sep'] * 1.1))))
    if kw['bin_type'] in ('Log', 'Linear'):
        bt = 'Linear' if kw['bin_type'] == 'Log' else 'Log'
        opts.append(('bin_type', lambda: corr_cls(tc, w.name)(**dict(kw, bin_type=bt))))
    for key, d in (('nubins', 1), ('nvbins', 1), ('nphi_bins', 1), ('max_n', 1)):
        if key in kw:
            opts.append((key, lambda key=key, d=d: corr_cls(tc, w.name)(**dict(kw, **{key: kw[key] + d}))))
    if kw['bin_type'] == 'LogRUV':
        opts.append(('min_u', lambda: corr_cls(tc, w.name)(**dict(kw, min_u=0.05, max_u=0.97))))
        opts.append(('max_v', lambda: corr_cls(tc, w.name)(**dict(kw, min_v=0.05, max_v=0.97))))
    if kw['bin_type'] == 'LogSAS':
        opts.append(('max_phi', lambda: corr_cls(tc, w.name)(**dict(kw, min_phi=0.1, max_phi=3.0, phi_units='rad'))))
    nm, f = opts[k % len(opts)]
    o = f()
    if k % 2 and nm != 'class' and nm != 'not_a_correlation':
        # an object that holds data
        w.proc(o, w.pieces()[0], finalize=False)
    return nm, o


def run(case):
    import treecorr as tc
    w = World(tc, case)
    name, three = w.name, w.three
    bt = case['kw']['bin_type']
    auto = w.mode == 'auto'
    rng = np.random.RandomState(case['seed'])
    pcs = w.pieces()
    raw = []
    for i, cats in enumerate(pcs):
        c = w.new()
        w.proc(c, cats, finalize=False)
        f = fields(c, bt, three, auto)
        raw.append(dict(arr={n: SL(a) for n, (k, x, a) in f.items()}, res=results(c, three), cats=w.cats_of(cats),
                        novar=(w.mode == 'auto' and not three and len(cats) == 2)))
    e = w.new()
    w.proc(e, pcs[0], finalize=False)
    e._clear()
    if three:
        e.finalize(*([1., 1., 1.] if name != 'NNN' else []))
    else:
        e.finalize(*([] if name == 'NN' else [1.] * (1 if name[0] == 'N' else 2)))
    f = fields(e, bt, three, auto)
    nominal = {n: SL(a) for n, (k, x, a) in f.items()}
    rscale = {}
    for p in raw:
        for q in p['res']:
            for n, a in q['arr'].items():
                rscale[n] = max([rscale.get(n, 0.)] + [abs(float(x)) for x in a])
    onego = []
    if not case['local'] and (w.mode == 'cross' or not three and bt != 'TwoD') and w.mode != 'cross12':
        allc = dict(coords=case['coords'], p=[], w=[], v=[], patch=None)
        for c in case['A']:
            for k in 'pwv':
                allc[k] = allc[k] + c[k]
        c = w.new()
        big = mk_cat(tc, allc, name[0])
        kw = dict(algo=case['algo']) if three and case['algo'] else {}
        if three:
            kw['ordered'] = True
        plain = [mk_cat(tc, b, name[1 + i]) for i, b in enumerate(case['B'][:len(name) - 1])]
        c.process(*([big] if w.mode == 'auto' else [big] + plain), finalize=False, num_threads=1, **kw)
        onego = [{n: SL(a) for n, (k, x, a) in fields(c, bt, three, auto).items()}]
    spin = [l in 'ZVGTQ' for l in name]
    vfac = (2 if all(spin) else 1) if not three else {'NNN': 1, 'KKK': 1, 'GGG': 4}[name] * (1 if bt == 'LogRUV' else 2)
    unit = dict(arcmin=np.pi / 10800, deg=np.pi / 180).get(case['kw'].get('sep_units', ''), 1)
    objs = {1: w.new(), 2: None, 3: None}

    def state(r):
        live = [q for q in (1, 2, 3) if objs[q] is not None]
        r['dig'] = [digest(objs[q]) if q in live else '' for q in (1, 2, 3)]
        r['adig'] = [adig(objs[q]) if q in live else '' for q in (1, 2, 3)]
        r['eq'] = [dict(a=a, b=b, eq=bool(objs[a] == objs[b])) for a in live for b in live if a != b]
        return r
    recs = [state(dict(first=True, op='new', pieces=raw, kinds={n: k for n, (k, x, a) in f.items()},
                       wf={n: x for n, (k, x, a) in f.items()}, nominal=nominal, rscale={n: S(x) for n, x in rscale.items()},
                       unit=S(unit), chord=(case['coords'] == 'sphere'), letters=list(name), vfac=vfac,
                       vw='weightr' if three else 'weight', onego=onego, nontrivial=any(p['arr']['weightr' if three else 'weight'] and
                       any(x != 0 for x in p['arr']['weightr' if three else 'weight']) for p in raw), err=''))]
    byhand = {1: True, 2: True, 3: True}
    ops = [list(h) for h in case['hist']] + [['look', o] for o in (1, 2, 3)]
    for nop, h in enumerate(ops):
        op, o = h[0], h[1]
        if op == 'look' and objs[o] is None:
            continue
        r = dict(first=False, op=op, o=o, err='')
        c = objs[o]
        try:
            if op == 'proc':
                _, _, p, i, fi, lo = h
                lo = int(bool(lo) and w.lowable())
                r.update(p=p, init=i, fin=fi, low=lo)
                if lo:
                    w.low(c, pcs[p - 1])
                else:
                    w.proc(c, pcs[p - 1], initialize=bool(i), finalize=bool(fi))
            elif op == 'add':
                r['q'] = h[2]
                if three or rng.randint(2):
                    c += objs[h[2]]
                else:
                    c.__iadd__(objs[h[2]])
            elif op == 'bad':
                what, other = bad_additions(w, c, int(rng.randint(1000)))
                r.update(what=what, refused=False)
                try:
                    c += other
                except (TypeError, ValueError):
                    r['refused'] = True
            elif op == 'clear':
                c.clear()
            elif op == 'create':
                objs[o] = w.new()
            elif op == 'copy':
                # (o: what is copied, h[2]: becomes the copy)
                src, dst, m = o, h[2], h[3]
                objs[dst] = [lambda x: x.copy(), copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)),
                               lambda x: pickle.loads(pickle.dumps(x, protocol=2))][m](objs[src])
                byhand[dst] = byhand[src]
                r.update(o=dst, q=src, how=m)
                o = dst
            elif op == 'finalize':
                v = [float(x) for x in rng.randint(1, 9, 3) / 4.]
                n = [] if name in ('NN', 'NNN') else v if three else v[:1 if name[0] == 'N' else 2]
                c.finalize(*n)
                r['vnum'] = S(np.prod(n) if n else 0)
            elif op == 'look':
                r['var'] = []
                derived(c)
                v = var_list(c, name, three)
                r.update(var=v, byhand=byhand[o])
        except Exception as ex:
            import traceback
            r['err'] = '%s: %s %s' % (type(ex).__name__, str(ex)[:100], traceback.format_exc().splitlines()[-3][:120])
        if not r['err']:
            state(r)
            if op not in ('look', 'bad'):
                r['vals'] = {n: SL(a) for n, (k, x, a) in fields(objs[o], bt, three, auto).items()}
                r['res'] = results(objs[o], three)
        recs.append(r)
        if r['err']:
            return recs
    # resampled covariances: as from an object into which the same pieces were processed straightforwardly
    if case['npatch'] > 1 and name != 'NNN' and bt != 'LogMultipole':
        bags = track(recs)
        rr = None
        if name == 'NN':
            rr = w.new()
            if w.mode == 'auto':
                w.proc(rr, pcs[1])
            else:
                w.proc(rr, pcs[0])
        for o in (1, 2, 3):
            if objs[o] is None or sum(bags[o]) == 0:
                continue
            k = w.new()
            seq = [i for i in range(3) for _ in range(bags[o][i])]
            for j, i in enumerate(seq):
                w.proc(k, pcs[i], initialize=(j == 0), finalize=(j == len(seq) - 1))
            if name == 'NN':
                # (the tot and weight of an object that was added to do not concern its results)
                k.weight[:] = objs[o].weight
                k.npairs[:] = objs[o].npairs
                k.tot = objs[o].tot
                if k.tot == 0:
                    continue
            r = dict(first=False, op='cov', o=o, err='')
            r['cov'], e1 = cov_of(w, objs[o], rr)
            r['canon'], e2 = cov_of(w, k, rr)
            r['canonbag'] = bags[o]
            if e1 != e2:
                r['err'] = 'covariance: %s instead of %s' % (e1, e2)
            mx = max([abs(float(x)) for x in r['canon']] + [0.])
            r['ctol'] = S(1e-7 * mx + 1e-12)
            state(r)
            recs.append(r)
    # a cleared object, and one that is processed anew, is as a new one whatever it went through
    for o in (1, 2, 3):
        if objs[o] is None:
            continue
        for op in ('cleared', 'again'):
            r = dict(first=False, op=op, o=o, err='')
            try:
                k = w.new()
                if op == 'again':
                    pass
                elif rng.randint(2):
                    try:
                        if name == 'NN':
                            objs[o].calculateXi(rr=w.rand())
                        elif name[0] == 'N' and hasattr(objs[o], 'calculateXi'):
                            objs[o].calculateXi(**{'r' + name[1].lower(): w.rand()})
                    except (RuntimeError, ZeroDivisionError):
                        pass       # (patches that do not fit; no objects)
                if op == 'cleared':
                    objs[o].clear()
                else:
                    w.proc(objs[o], pcs[0], nthr=1)
                    w.proc(k, pcs[0], nthr=1)
                r['obs'], r['new'] = public(objs[o], op), public(k, op)
            except Exception as ex:
                r['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:100])
            if not r['err']:
                state(r)
            recs.append(r)
            if r['err']:
                return recs
    return recs


def public(c, op):
    """every public attribute, as name -> numbers (or a digest)"""
    out = {}
    for n in sorted(dir(c)):
        if n == 'meanv' and c.bin_type != 'LogRUV':
            continue
        if n.startswith('_') or n in ('logger', 'results', 'corr', 'rng') or (op == 'cleared' and n in ('coords', 'metric')):
            continue
        try:
            x = getattr(c, n)
        except Exception as e:
            x = 'raises ' + type(e).__name__
        if callable(x):
            continue
        if isinstance(x, (np.ndarray, np.generic)) and np.asarray(x).dtype.kind in 'fciub':
            x = np.asarray(x)
            x = np.concatenate([x.real.ravel(), x.imag.ravel()]) if x.dtype.kind == 'c' else x
            x = [S(y) for y in x.ravel().astype(float)]
        elif isinstance(x, (int, float)):
            x = [S(x)]
        else:
            x = [repr(x)[:80]]
        out[n] = [str(y) for y in x]
    for n in ('getStat', 'getWeight'):
        try:
            out[n] = [str(y) for y in SL(np.asarray(getattr(c, n)()).real)]
        except Exception as e:
            out[n] = ['raises ' + type(e).__name__]
    out['nresults'] = [str(len(c.results))]
    return out


def track(recs):
    """the bag of pieces in the per-patch results (checked again by the specification)"""
    b = {1: [0] * 3, 2: [0] * 3, 3: [0] * 3}
    for r in recs[1:]:
        o = r['o']
        if r['op'] == 'proc':
            if r['init']:
                b[o] = [0] * 3
            if not r['low']:
                b[o] = list(b[o])
                b[o][r['p'] - 1] += 1
        elif r['op'] in ('clear', 'create'):
            b[o] = [0] * 3
        elif r['op'] == 'copy':
            b[o] = list(b[r['q']])
    return b
