"""Makes the tree under test importable.

Python sources are imported straight from REPO (default /repo).  The Cython
extensions are used in place when /repo/build/vp-stamp.json proves that they
were built from the present .pyx files; otherwise they are rebuilt here, from a
scratch copy of the present sources, and put in front of the import system by a
meta path finder.  The C shim of the simulated kernel boundary is compiled here
too.  Everything lands in /verif/.build, keyed by content.
"""
import fcntl
import glob
import hashlib
import importlib.machinery
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import sysconfig

import numpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SPEED = 'malstroem/algorithms/speedups'


def _read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except OSError:
        return b'-'


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()


def _pyx():
    return sorted(glob.glob(os.path.join(REPO, 'malstroem/**/*.pyx'), recursive=True))


def _in_place():
    """{module: .so} when the stamp of the repository's own build covers every extension, else None"""
    try:
        stamp = json.loads(_read(os.path.join(REPO, 'build/vp-stamp.json')))
    except ValueError:
        return None
    out = {}
    for pyx in _pyx():
        sos = glob.glob(pyx[:-4] + '.*.so')
        if len(sos) != 1:
            return None
        rel = os.path.relpath(sos[0], REPO)
        shared = ['setup.py', 'setup.cfg'] + sorted(
            os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, 'malstroem/**/*.px[di]'), recursive=True))
        h = hashlib.sha256()
        for path in shared + [os.path.relpath(pyx, REPO), rel]:
            h.update(path.encode() + b'\0' + hashlib.sha256(_read(os.path.join(REPO, path))).digest())
        if stamp.get(rel) != h.hexdigest():
            return None
        out[os.path.relpath(pyx[:-4], REPO).replace('/', '.')] = sos[0]
    return out


def _rebuild():
    srcs = _pyx() + sorted(glob.glob(os.path.join(REPO, 'malstroem/**/*.px[di]'), recursive=True))
    key = _sha(_read(os.path.join(REPO, 'setup.py')), *[p.encode() + _read(p) for p in srcs])[:20]
    dest = os.path.join(BUILD, 'ext-' + key)
    if not os.path.exists(os.path.join(dest, 'ok')):
        tmp = dest + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(os.path.join(REPO, 'malstroem'), os.path.join(tmp, 'malstroem'),
                        ignore=shutil.ignore_patterns('*.so', '*.c', '*.html', '__pycache__'))
        for f in ('setup.py', 'setup.cfg', 'README.md'):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), tmp)
        r = subprocess.run([sys.executable, 'setup.py', '-q', 'build_ext', '--inplace', '-j', '3'], cwd=tmp,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            raise RuntimeError('extension build failed:\n' + r.stdout.decode(errors='replace')[-4000:])
        shutil.rmtree(os.path.join(tmp, 'build'), ignore_errors=True)
        open(os.path.join(tmp, 'ok'), 'w').close()
        shutil.rmtree(dest, ignore_errors=True)
        os.rename(tmp, dest)
    out = {}
    for pyx in _pyx():
        rel = os.path.relpath(pyx[:-4], REPO)
        out[rel.replace('/', '.')] = glob.glob(os.path.join(dest, rel) + '.*.so')[0]
    return out


class _Finder(object):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        p = self.mods.get(name)
        if p:
            return importlib.util.spec_from_file_location(name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        return None


def prepare():
    """Build what is missing; returns (extension map, shim path)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mods = _in_place() or _rebuild()
        src = os.path.join(VERIF, 'sim/native/simk.c')
        lib = os.path.join(BUILD, 'simk-%s.so' % _sha(_read(src))[:16])
        if not os.path.exists(lib):
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', lib + '.tmp', src], check=True)
            os.rename(lib + '.tmp', lib)
        src = os.path.join(VERIF, 'sim/native/npmem.c')
        inc = [sysconfig.get_paths()['include'], numpy.get_include()]
        mem = os.path.join(BUILD, 'npmem-%s.so' % _sha(_read(src), repr([sys.version, numpy.__version__]).encode())[:16])
        if not os.path.exists(mem):
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-I' + inc[0], '-I' + inc[1], '-o', mem + '.tmp', src], check=True)
            os.rename(mem + '.tmp', mem)
        mods = dict(mods, npmem=mem)
    return mods, lib


def install():
    """Make `import malstroem` mean the present tree; returns the shim path."""
    sys.dont_write_bytecode = True
    mods, lib = prepare()
    sys.meta_path.insert(0, _Finder(mods))
    sys.path.insert(0, REPO)
    import npmem
    import malstroem
    assert os.path.dirname(os.path.dirname(os.path.abspath(malstroem.__file__))) == os.path.abspath(REPO), malstroem.__file__
    return lib


def tree_digest():
    """identifies the sources under test"""
    fs = sorted(glob.glob(os.path.join(REPO, 'malstroem/**/*.py'), recursive=True)) + _pyx()
    return _sha(*[os.path.relpath(p, REPO).encode() + _read(p) for p in fs])[:16]


if __name__ == '__main__':
    print('built', prepare()[1])
