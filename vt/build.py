"""Builds the package under test from /repo's working tree, outside /repo.

The C++ extension is compiled from /repo's sources (cwd /repo, so the sandbox's compiler cache can be used
read-only), objects and the .so go to a cache folder keyed by the content of every C++ source file; the Python
files are copied next to it into a scratch package on every call.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VERIF_CACHE', '/tmp/verif-treecorr-cache')

INC = ['-I/opt/venv/include', '-I/usr/include/python3.12', '-Iinclude',
       '-I/opt/venv/lib/python3.12/site-packages/pybind11/include']
CFLAGS = ['-fno-strict-overflow', '-Wsign-compare', '-DNDEBUG', '-g', '-O2', '-Wall', '-fPIC']
XFLAGS = ['-fopenmp', '-O3', '-ffast-math', '-std=c++11']


class BuildError(Exception):
    pass


def _digest():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/include/*') + glob.glob(REPO + '/include/*/*'))
    for f in files:
        if os.path.isfile(f):
            h.update(os.path.relpath(f, REPO).encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_so():
    key = _digest()
    out = os.path.join(CACHE, key, '_treecorr.so')
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(os.path.join(CACHE, key, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        objdir = tempfile.mkdtemp(dir=os.path.dirname(out))
        env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'CCACHE'))}
        env['LANG'] = 'C.UTF-8'
        cxx = ['g++']
        if shutil.which('ccache') and os.path.isdir('/opt/ccache'):
            env.update(CCACHE_DIR='/opt/ccache', CCACHE_READONLY='1', CCACHE_NOSTATS='1')
            cxx = ['ccache', 'g++']
        srcs = sorted(glob.glob(REPO + '/src/*.cpp'), key=os.path.getsize, reverse=True)

        def one(src):
            rel = os.path.relpath(src, REPO)
            obj = os.path.join(objdir, os.path.basename(src)[:-4] + '.o')
            cmd = cxx + CFLAGS + INC + ['-c', rel, '-o', obj] + XFLAGS
            p = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
            if p.returncode:
                p = subprocess.run(['g++'] + cmd[len(cxx):], cwd=REPO, env=env, capture_output=True, text=True)
            if p.returncode:
                raise BuildError('compiling %s failed:\n%s' % (rel, p.stderr[-4000:]))
            return obj
        with ThreadPoolExecutor(os.cpu_count()) as pool:
            objs = list(pool.map(one, srcs))
        tmp = out + '.tmp'
        p = subprocess.run(['g++', '-shared', '-Wl,-O1', '-Wl,-Bsymbolic-functions'] + objs +
                           ['-o', tmp, '-fopenmp'], cwd=REPO, env=env, capture_output=True, text=True)
        if p.returncode:
            raise BuildError('link failed:\n' + p.stderr[-4000:])
        os.rename(tmp, out)
        shutil.rmtree(objdir, ignore_errors=True)
    return out


def make_package(dest):
    """Assemble an importable copy of the package under test in dest/."""
    so = build_so()
    pkg = os.path.join(dest, 'treecorr')
    os.makedirs(pkg)
    for f in glob.glob(REPO + '/treecorr/*.py'):
        shutil.copy(f, pkg)
    os.symlink(so, os.path.join(pkg, '_treecorr.cpython-312-x86_64-linux-gnu.so'))
    if os.path.isdir(REPO + '/scripts'):
        shutil.copytree(REPO + '/scripts', os.path.join(dest, 'scripts'))
    return dest


def build_java():
    """Compile the TLC module overrides (cached by content)."""
    srcs = sorted(glob.glob(VERIF + '/java/tlc2/module/*.java'))
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, 'rb').read())
    out = os.path.join(CACHE, 'java-' + h.hexdigest()[:16])
    if os.path.isdir(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=CACHE)
    p = subprocess.run(['javac', '-cp', '/opt/veriftools/tla/tla2tools.jar', '-d', tmp] + srcs,
                       capture_output=True, text=True)
    if p.returncode:
        raise BuildError('javac failed:\n' + p.stderr)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == '__main__':
    print(build_so())
    print(build_java())
    sys.exit(0)
