"""Provide brainstorm's compiled extension for /repo's *current* tree.

The checks import the Python code straight from /repo.  The one compiled part
(brainstorm/handlers/_cpuop.pyx) is used from the in-place build only if that
build's stamp matches the current sources; otherwise it is built out of tree
into /verif/.build/<hash>/ and injected as brainstorm.handlers._cpuop.
"""
import hashlib
import os
import subprocess
import sys
import tempfile

REPO = os.environ.get('VMC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def ext_inputs():
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, 'brainstorm')):
        for n in names:
            if n.endswith(('.pyx', '.pxd')):
                files.append(os.path.relpath(os.path.join(root, n), REPO))
    return ['setup.py'] + sorted(files)


def stamp():
    h = hashlib.sha256()
    for f in ext_inputs():
        with open(os.path.join(REPO, f), 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def ensure_extension():
    """Return the path of a _cpuop shared object built from the current tree."""
    now = stamp()
    import glob
    so = glob.glob(os.path.join(REPO, 'brainstorm/handlers/_cpuop.*.so'))
    try:
        with open(os.path.join(REPO, 'build/cpuop.sha256')) as f:
            old = f.read().split()[0]
    except (OSError, IndexError):
        old = None
    if so and old == now:
        return so[0]
    cache = os.path.join(VERIF, '.build', now)
    target = os.path.join(cache, '_cpuop.so')
    if os.path.exists(target):
        return target
    os.makedirs(cache, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vmc_ext_')
    try:
        import shutil
        src = os.path.join(REPO, 'brainstorm/handlers/_cpuop.pyx')
        shutil.copy(src, os.path.join(tmp, '_cpuop.pyx'))
        for f in ext_inputs():
            if f.endswith('.pxd'):
                shutil.copy(os.path.join(REPO, f), tmp)
        env = dict(os.environ)
        subprocess.run([PY, '-W', 'ignore', '-m', 'cython',
                        '--module-name', 'brainstorm.handlers._cpuop',
                        '_cpuop.pyx', '-o', '_cpuop.c'],
                       cwd=tmp, env=env, check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        inc = subprocess.run(
            [PY, '-c', 'import sysconfig, numpy;'
             'print(sysconfig.get_path("include")); '
             'print(numpy.get_include())'],
            env=env, check=True, capture_output=True,
            text=True).stdout.split()
        out = '_cpuop.%d.so' % os.getpid()
        subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-O1',
                        '-fwrapv', '-fno-strict-aliasing'] +
                       ['-I' + i for i in inc] + ['_cpuop.c', '-o', out],
                       cwd=tmp, check=True, stderr=subprocess.PIPE)
        final = os.path.join(cache, out)
        shutil.copy(os.path.join(tmp, out), final)
        os.rename(final, target)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return target


def install(so_path):
    """Make `import brainstorm` load /repo's code with that extension."""
    import importlib.machinery
    import importlib.util
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    name = 'brainstorm.handlers._cpuop'

    class Finder(object):
        @staticmethod
        def find_spec(fullname, path=None, target=None):
            if fullname != name:
                return None
            loader = importlib.machinery.ExtensionFileLoader(name, so_path)
            return importlib.util.spec_from_file_location(
                name, so_path, loader=loader)

    sys.meta_path.insert(0, Finder)
    import warnings
    warnings.filterwarnings('ignore')
    import brainstorm
    where = os.path.dirname(os.path.abspath(brainstorm.__file__))
    assert where == os.path.join(REPO, 'brainstorm'), where
    return brainstorm


if __name__ == '__main__':
    print(ensure_extension())
