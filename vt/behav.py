"""Behaviours of a specification, generated by TLC (module M, configuration cfg, which print '@@BEH <json history>'), for
replay into the code.  Exhaustive up to the configured depth, or sampled (simulate=number) for longer ones."""
import fcntl
import hashlib
import json
import os
import re

from . import tlc
from .build import CACHE


def load(module, cfg, simulate=0, depth=100, seed=1, timeout=600):
    h = hashlib.md5(repr((simulate, depth, seed)).encode())
    for f in sorted(os.listdir(tlc.SPEC)):
        if f in (module + '.tla', cfg + '.cfg', 'Behaviours.tla') or f in deps(module):
            h.update(open(os.path.join(tlc.SPEC, f), 'rb').read())
    os.makedirs(CACHE, exist_ok=True)
    fn = os.path.join(CACHE, 'behav-%s-%s-%s.json' % (module, cfg, h.hexdigest()[:16]))
    with open(fn + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(fn):
            extra = []
            if simulate:
                extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth + 1), '-seed', str(seed)]
            r = tlc.run(module, cfg + '.cfg', timeout=timeout, extra=extra, simulate=simulate, heap='3g')
            if not r.ok:
                raise tlc.TLCError('behaviours of %s/%s: %s' % (module, cfg, r.out[-2000:]))
            out = []
            seen = set()
            for line in r.out.splitlines():
                m = re.match(r'"@@BEH (.*)"$', line.strip())
                if m:
                    s = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
                    if s not in seen:
                        seen.add(s)
                        out.append(json.loads(s))
            if not out:
                raise tlc.TLCError('no behaviours from %s/%s' % (module, cfg))
            with open(fn + '.tmp', 'w') as f:
                json.dump(out, f)
            os.rename(fn + '.tmp', fn)
    return json.load(open(fn))


def deps(module, seen=None):
    """the specification files a module extends or instantiates"""
    seen = set() if seen is None else seen
    fn = os.path.join(tlc.SPEC, module + '.tla')
    if not os.path.exists(fn) or module + '.tla' in seen:
        return seen
    seen.add(module + '.tla')
    t = open(fn).read()
    for m in re.finditer(r'(?:EXTENDS|INSTANCE)\s+([\w, ]+)', t):
        for x in m.group(1).replace('\n', ' ').split(','):
            deps(x.strip().split(' ')[0], seen)
    return seen
