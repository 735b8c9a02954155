"""Bind this process to /repo's current working tree.

* /repo is put first on sys.path, so every Python module under test is the real
  file of the working tree.
* The Cython extensions are never trusted as found in the tree: they are recompiled
  from the .pyx/.pxd files present now into a cache addressed by the content of those
  files (outside /repo), and a meta-path finder serves the result.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k, _v in dict(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg',
                   PYTHONHASHSEED='0').items():
    os.environ[_k] = _v
sys.dont_write_bytecode = True


def _pyx_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'funpy')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith('.pyx')]
    return out


def _pxd_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'build', '__pycache__'))
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith('.pxd')]
    return out


def _compile(pyx):
    import numpy
    import Cython
    h = hashlib.sha256()
    for p in pyx + _pxd_files():
        h.update(os.path.relpath(p, REPO).encode())
        h.update(open(p, 'rb').read())
    h.update(repr((sys.version, numpy.__version__, Cython.__version__, 'v2')).encode())
    cache = os.path.join(VERIF, '.build', h.hexdigest()[:24])
    if os.path.exists(os.path.join(cache, 'ok')):
        return cache
    os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='ext-', dir=os.path.join(VERIF, '.build'))
    try:
        # a source tree with nothing but what cython needs
        for p in pyx + _pxd_files():
            dst = os.path.join(work, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(p, dst)
        for root, dirs, files in os.walk(os.path.join(work, 'funpy')):
            if not os.path.exists(os.path.join(root, '__init__.py')):
                open(os.path.join(root, '__init__.py'), 'w').close()
        procs = []
        inc = ['-I' + numpy.get_include(), '-I' + sysconfig.get_paths()['include']]
        env = dict(os.environ, PYTHONPATH='')
        for p in pyx:
            rel = os.path.relpath(p, REPO)
            c = rel[:-4] + '.c'
            so = os.path.join(work, rel[:-4].replace('/', '.') + '.so')
            cmd = ('%s -m cython -3 %s -o %s && gcc -O1 -fPIC -shared -fno-fast-math -w %s %s -o %s'
                   % (sys.executable, rel, c, ' '.join(inc), c, so))
            procs.append((rel, subprocess.Popen(['bash', '-c', cmd], cwd=work, env=env,
                                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for rel, pr in procs:
            out, _ = pr.communicate(timeout=600)
            if pr.returncode:
                raise RuntimeError('building %s failed:\n%s' % (rel, out.decode()[-3000:]))
        open(os.path.join(work, 'ok'), 'w').close()
        try:
            os.rename(work, cache)
        except OSError:          # another process was faster
            shutil.rmtree(work, ignore_errors=True)
        return cache
    except BaseException:
        shutil.rmtree(work, ignore_errors=True)
        raise


class _ExtFinder:
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def bind():
    pyx = _pyx_files()
    cache = _compile(pyx)
    table = {}
    for p in pyx:
        dotted = os.path.relpath(p, REPO)[:-4].replace('/', '.')
        table[dotted] = os.path.join(cache, dotted + '.so')
    sys.meta_path.insert(0, _ExtFinder(table))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.abspath(REPO)]
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import funpy
    assert os.path.abspath(funpy.__file__).startswith(os.path.abspath(REPO) + '/'), funpy.__file__
    return funpy
