"""Runs TLC and reads its verdict."""
import os
import re
import subprocess
import tempfile
import shutil

from .build import build_java, VERIF

SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


EVAL = r'TLC was evaluating the nested|Attempted to |Evaluating |was not in the domain'


class TLCError(Exception):
    pass


class Result:
    def __init__(self):
        self.states = self.generated = 0
        self.depth = 0
        self.ok = False
        self.violation = ''
        self.fails = []      # (line number, clause set text)
        self.stats = {}      # '@@STAT name n' lines summed
        self.out = ''
        self.actions = {}
        self.stuck = 0


def run(module, cfg, env=None, workers=1, timeout=600, extra=(), heap='2g', simulate=None, trace=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>.  Raises TLCError on machinery failure.

    trace=True: the module judges recorded events, one per state.  An event the specification can make no sense of (its values are
    outside the domain of its operators) is reported as failing, in r.stuck; the events after it are not judged."""
    classes = build_java()
    meta = tempfile.mkdtemp(prefix='tlcmeta-')
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + meta,
           '-cp', classes + ':' + JARS, '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-config', os.path.join(SPEC, cfg)] + list(extra)
    cmd.append(os.path.join(SPEC, module + '.tla'))
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError('TLC timed out on %s/%s' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result()
    r.out = p.stdout
    for line in p.stdout.splitlines():
        s = line.strip().strip('"')
        if s.startswith('@@FAIL '):
            m = re.match(r'@@FAIL (\d+) (.*)$', s)
            r.fails.append((int(m.group(1)), m.group(2).replace('\\"', '"')))
        elif s.startswith('@@STAT '):
            _, k, v = s.split()
            r.stats[k] = r.stats.get(k, 0) + int(v)
        else:
            m = re.match(r'(\d+) states generated, (\d+) distinct states found', s)
            if m:
                r.generated, r.states = int(m.group(1)), int(m.group(2))
            m = re.match(r'The depth of the complete state graph search is (\d+)', s)
            if m:
                r.depth = int(m.group(1))
            m = re.match(r'The number of states generated: (\d+)', s)
            if m:
                r.generated = r.states = int(m.group(1))
            m = re.match(r'<(\w+) line .*>: (\d+):(\d+)', s)
            if m:
                a = r.actions.get(m.group(1), 0)
                r.actions[m.group(1)] = a + int(m.group(3))
    if trace and p.returncode not in (0, 1, 255) and re.search(EVAL, p.stdout) and not re.search('OutOfMemory|StackOverflow', p.stdout + p.stderr):
        at = re.findall(r'^(?:/\\ )?l = (\d+)$', p.stdout, re.M)
        if at:
            r.stuck = int(at[-1])
            if r.stuck not in [n for n, _ in r.fails]:
                r.fails.append((r.stuck, '{"not_interpretable"}'))
            r.ok = True
            return r
    if p.returncode == 0 and ('No error has been found' in p.stdout or simulate):
        r.ok = True
    elif p.returncode in (10, 11, 12, 13) or 'is violated' in p.stdout or 'Deadlock reached' in p.stdout:
        r.violation = '\n'.join(l for l in p.stdout.splitlines() if 'Error' in l or 'violated' in l)[:500]
        # An evaluation error inside an invariant also exits with these codes: treat it as machinery failure.
        if not re.search(r'is violated|Deadlock reached|were violated|was violated', p.stdout):
            raise TLCError('TLC failed on %s/%s:\n%s' % (module, cfg, p.stdout[-3000:] + p.stderr[-1000:]))
    else:
        raise TLCError('TLC failed (%d) on %s/%s:\n%s' % (p.returncode, module, cfg, p.stdout[-3000:] + p.stderr[-2000:]))
    return r
