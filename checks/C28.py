"""Prepared data sets hold the source data exactly."""
import fcntl
import gzip
import io
import os
import pickle
import shutil
import subprocess
import sys
import tarfile
import tempfile
import zipfile
import zlib

import h5py
import numpy as np

from brainstorm.data_iterators import Minibatches
from vmc.core import Violation, check

BOUNDS = {
    'quick': 'the 4 real scripts on archives in which all positions can be '
             'told apart: every byte of every image and label of MNIST, '
             'CIFAR-10 and CIFAR-100 (all examples, all variants and '
             'sets), Hutter text with 1-6 batches of training text and '
             'alphabets of 2, 3, 205 and 256 characters (every character, '
             'through Minibatches); archive present or to be downloaded, '
             'directory given or not, an old file present or not; archives '
             'cut at 10 places',
    'thorough': 'as quick, with all combinations of those for every script, '
                'up to 20 batches and archives cut at 200 places',
}

REPO = os.environ.get('VMC_REPO', '/repo')
SCRIPTS = os.path.join(REPO, 'data')

# Runs a script with a stand-in for the download, and without compression
RUNNER = r'''
import os, runpy, shutil, sys, warnings
warnings.simplefilter('ignore')
import h5py
import six.moves.urllib.request as request
script, archive, log = sys.argv[1:4]


def urlretrieve(url, filename=None, *args, **kwargs):
    with open(log, 'a') as f:
        f.write(url + '\n')
    shutil.copy(archive, filename)
    return filename, None


request.urlretrieve = urlretrieve
import urllib.request
urllib.request.urlretrieve = urlretrieve
old = h5py.Group.create_dataset


def create_dataset(self, *args, **kwargs):
    kwargs.pop('compression', None)
    kwargs.pop('compression_opts', None)
    return old(self, *args, **kwargs)


h5py.Group.create_dataset = create_dataset
sys.argv[:] = [script]
runpy.run_path(script, run_name='__main__')
'''

NAMES = dict(mnist=('mnist.pkl.gz', 'MNIST.hdf5',
                    'http://deeplearning.net/data/mnist/mnist.pkl.gz'),
             cifar10=('cifar-10-binary.tar.gz', 'CIFAR-10.hdf5',
                      'http://www.cs.toronto.edu/~kriz/'
                      'cifar-10-binary.tar.gz'),
             cifar100=('cifar-100-binary.tar.gz', 'CIFAR-100.hdf5',
                       'http://www.cs.toronto.edu/~kriz/'
                       'cifar-100-binary.tar.gz'),
             hutter=('enwik8.zip', 'HutterPrize.hdf5',
                     'http://mattmahoney.net/dc/enwik8.zip'))


# -------------------------------- archives ---------------------------------

def seed_of(*key):
    return zlib.crc32(repr(key).encode())


def mnist_source():
    rs = np.random.RandomState(seed_of('mnist'))
    return [(rs.randint(0, 256, (n, 784)).astype(np.float32) / 255,
             rs.randint(0, 10, n)) for n in (50000, 10000, 10000)]


def cifar_source(name):
    rs = np.random.RandomState(seed_of(name))
    labels = 1 if name == 'cifar10' else 2
    return np.hstack([
        rs.randint(0, 20, (60000, labels - 1)).astype(np.uint8),
        rs.randint(0, 100 if labels == 2 else 10, (60000, 1)
                   ).astype(np.uint8),
        rs.randint(0, 256, (60000, 3072), dtype=np.uint8)])


def hutter_source(batches, chars):
    rs = np.random.RandomState(seed_of('hutter', batches, chars))
    alphabet = np.sort(rs.permutation(256)[:chars]).astype(np.uint8)
    return alphabet, alphabet[
        rs.randint(0, chars, 10000 * batches + 10000000)]


def write_archive(path, case):
    name = case['script']
    if name == 'mnist':
        with gzip.open(path, 'wb', 1) as f:
            pickle.dump(tuple(mnist_source()), f, 2)
    elif name == 'hutter':
        with zipfile.ZipFile(path, 'w', zipfile.ZIP_STORED) as f:
            f.writestr('enwik8', hutter_source(
                case['batches'], case['chars'])[1].tobytes())
    else:
        data = cifar_source(name)
        if name == 'cifar10':
            parts = [('cifar-10-batches-bin/data_batch_%d.bin' % (i + 1),
                      data[i * 10000:(i + 1) * 10000]) for i in range(5)]
            parts.append(('cifar-10-batches-bin/test_batch.bin',
                          data[50000:]))
        else:
            parts = [('cifar-100-binary/train.bin', data[:50000]),
                     ('cifar-100-binary/test.bin', data[50000:])]
        with tarfile.open(path, 'w:gz', compresslevel=1) as f:
            # in another order than that in which they are needed
            for n, p in reversed(parts):
                info = tarfile.TarInfo(n)
                info.size = p.size
                f.addfile(info, io.BytesIO(p.tobytes()))


# ---------------------------------- runs -----------------------------------

def run_script(case, tmp, archive):
    """Returns (exit code, output, path of the HDF5 file, downloads)."""
    name = case['script']
    local, result, _ = NAMES[name]
    script = os.path.join(tmp, 'here')
    data = os.path.join(tmp, 'data') if case['env'] else script
    for d in (script, data):
        if not os.path.exists(d):
            os.mkdir(d)
    if case['present']:
        shutil.copy(archive, os.path.join(data, local))
    path = os.path.join(data, result)
    if case['old']:
        with h5py.File(path, 'w') as f:
            f.create_group('split').create_dataset('old', data=[1])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    env.pop('BRAINSTORM_DATA_DIR', None)
    if case['env']:
        env['BRAINSTORM_DATA_DIR'] = data
    log = os.path.join(tmp, 'log')
    p = subprocess.run(
        [sys.executable, '-c', RUNNER,
         os.path.join(SCRIPTS, 'create_%s.py' % name), archive, log],
        cwd=script, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        timeout=800)
    urls = []
    if os.path.exists(log):
        with open(log) as f:
            urls = f.read().split()
    return p.returncode, p.stdout.decode('utf-8', 'replace'), path, urls


class Lock(object):
    """Not too many of the large ones at the same time."""

    def __init__(self, name):
        self.path = os.path.join(tempfile.gettempdir(), 'vmc28.%s.%d.lock' %
                                 (name, os.getuid()))

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *args):
        self.f.close()


def prepare(case, ctx):
    if case['script'].startswith('cifar'):
        with Lock('cifar'):
            return prepare_(case, ctx)
    return prepare_(case, ctx)


def prepare_(case, ctx):
    tmp = tempfile.mkdtemp(prefix='vmc28')
    try:
        archive = os.path.join(tmp, 'archive')
        write_archive(archive, case)
        rc, out, path, urls = run_script(case, tmp, archive)
        if rc == -9:   # not enough memory for so many at once
            shutil.rmtree(tmp)
            os.mkdir(tmp)
            write_archive(archive, case)
            with Lock('memory'):
                rc, out, path, urls = run_script(case, tmp, archive)
        what = 'create_%s.py' % case['script']
        check(rc == 0, '{} failed: {}', what, out[-600:])
        check(urls == ([] if case['present'] else [
            NAMES[case['script']][2]]), '{} downloaded {}', what, urls)
        check(os.path.exists(path), '{} made no {}', what, path)
        with h5py.File(path, 'r') as f:
            globals()['check_' + case['script'][:5]](case, f, ctx)
        ctx.state(tuple(sorted(case.items())))
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


def sets(f, names, what):
    """The sets in the file are those."""
    have = sorted('%s/%s' % (v, s) for v in f for s in f[v])
    check(have == sorted(names), '{} contains {} instead of {}', what, have,
          sorted(names))
    for n in names:
        check(sorted(f[n]) == ['default', 'targets'], '{} contains {}', n,
              sorted(f[n]))


def equal(a, b, what):
    check(a.shape == b.shape, '{} has the shape {} instead of {}', what,
          a.shape, b.shape)
    if not np.array_equal(a, b):
        i = tuple(int(j[0]) for j in np.nonzero(a != b))
        raise Violation('%s at %s is %s instead of %s' % (what, i, a[i],
                                                          b[i]))


SPLITS = {'normalized_split/training': (0, 40000),
          'normalized_split/validation': (40000, 50000),
          'normalized_split/test': (50000, 60000),
          'normalized_full/training': (0, 50000),
          'normalized_full/test': (50000, 60000)}


def check_mnist(case, f, ctx):
    src = mnist_source()
    x = np.concatenate([s[0] for s in src]).reshape(-1, 28, 28, 1)
    y = np.concatenate([s[1] for s in src]).reshape(-1, 1)
    where = {n: (a + 10000 * (a > 0), b + 10000)
             for n, (a, b) in SPLITS.items()}
    sets(f, where, 'MNIST')
    for n, (a, b) in where.items():
        equal(f[n]['default'][:], x[None, a:b], n + ' default')
        equal(f[n]['targets'][:], y[None, a:b], n + ' targets')
        ctx.step((b - a) * 785)


def check_cifar(case, f, ctx):
    src = cifar_source(case['script'])
    # row-major planes of red, green and blue
    x = src[:, -3072:].reshape(-1, 3, 32, 32).transpose(0, 2, 3, 1)
    y = src[:, -3073][:, None]
    total = np.zeros((32, 32, 3))
    for i in range(0, 40000, 5000):
        total += x[i:i + 5000].sum(axis=0, dtype=np.int64)
    mean = total / 40000
    total[:] = 0
    for i in range(0, 40000, 5000):
        total += ((x[i:i + 5000] - mean) ** 2).sum(axis=0)
    std = np.sqrt(total / 40000)
    for n, v in (('mean', mean), ('std', std)):
        check(n in f.attrs, 'no attribute {}', n)
        got = np.asarray(f.attrs[n])
        check(got.shape == v.shape and np.allclose(got, v, 1e-6, 1e-6),
              'the attribute {} is {} instead of {}', n, got, v)
    sets(f, SPLITS, case['script'])
    for n, (a, b) in SPLITS.items():
        equal(f[n]['targets'][:], y[None, a:b], n + ' targets')
        d = f[n]['default']
        check(d.shape == (1, b - a, 32, 32, 3), '{} has the shape {}', n,
              d.shape)
        for i in range(0, b - a, 2500):
            got = d[0, i:i + 2500] * std + mean
            equal(np.rint(got), x[a + i:a + i + 2500],
                  '%s default, from %d, not normalized,' % (n, i))
            check(np.abs(got - np.rint(got)).max() < 0.01,
                  '{} is not normalized', n)
        ctx.step((b - a) * 3073)


def check_hutte(case, f, ctx):
    alphabet, text = hutter_source(case['batches'], case['chars'])
    check('unique' in f.attrs, 'no attribute unique')
    unique = np.asarray(f.attrs['unique'])
    equal(unique, alphabet, 'the attribute unique')
    n = 5000000
    at = {'split/training': (0, len(text) - 2 * n),
          'split/validation': (len(text) - 2 * n, len(text) - n),
          'split/test': (len(text) - n, len(text))}
    sets(f, at, 'Hutter')
    for name, (a, b) in at.items():
        x, y = f[name]['default'][:], f[name]['targets'][:]
        for d in (x, y):
            check(d.shape == (100, (b - a) // 100, 1), '{} has the shape {}',
                  name, d.shape)
        # going through the batches, row by row, gives the text
        rows_x, rows_y = [], []
        for batch in Minibatches(100, False, default=x, targets=y)(None):
            rows_x.append(batch['default'][:, :, 0].T)
            rows_y.append(batch['targets'][:, :, 0].T)
        got = np.concatenate(rows_x, axis=1).ravel()
        check(got.min() >= 0 and got.max() < len(unique), '{} has classes '
              'from {} to {}', name, got.min(), got.max())
        equal(unique[got], text[a:b], name + ' default')
        got = np.concatenate(rows_y, axis=1).ravel()
        check(got.min() >= 0 and got.max() < len(unique), '{} has classes '
              'from {} to {}', name, got.min(), got.max())
        # the last one has no successor
        want = text[a + 1:b + 1]
        equal(unique[got[:len(want)]], want, name + ' targets')
        ctx.step(2 * (b - a))


# ------------------------------ cut archives -------------------------------

def cut(case, ctx):
    """A download that was not finished is refused."""
    tmp = tempfile.mkdtemp(prefix='vmc28')
    try:
        archive = os.path.join(tmp, 'archive')
        write_archive(archive, case)
        with open(archive, 'rb') as f:
            raw = f.read()
        size = len(raw)
        for i in range(case['part'], case['n'], case['parts']):
            with open(archive, 'wb') as f:
                f.write(raw[:size * i // case['n']])
            sub = os.path.join(tmp, str(i))
            os.mkdir(sub)
            rc, out, path, _ = run_script(case, sub, archive)
            complete = False
            if os.path.exists(path):
                try:
                    with h5py.File(path, 'r') as f:
                        complete = len(f) > 0
                except Exception:
                    pass
            check(rc != 0 and not complete, 'create_{}.py accepts {} of {} '
                  'bytes of its archive', case['script'],
                  size * i // case['n'], size)
            shutil.rmtree(sub)
            ctx.step()
            ctx.state((case['script'], i))
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


# ----------------------------------- run -----------------------------------

def cases(tier):
    th = tier == 'thorough'
    axes = [dict(present=p, env=e, old=o) for p in (True, False)
            for e in (True, False) for o in (True, False)]
    for name in ('cifar10', 'cifar100', 'mnist'):
        for a in axes if th else (axes[2 * (name == 'cifar100') + 1:][:1]):
            yield dict(k='prepare', script=name, **a)
    yield dict(k='prepare', script='mnist', **axes[4])
    i = 0
    for batches in range(1, 21 if th else 7):
        for chars in (2, 3, 205, 256):
            i += 1
            for a in axes if th else axes[i % 8:][:1]:
                yield dict(k='prepare', script='hutter', batches=batches,
                           chars=chars, **a)
    for name in ('cifar10', 'cifar100', 'mnist', 'hutter'):
        c = dict(k='cut', script=name, n=200 if th else 10,
                 parts=8 if th else 2, present=True, env=True, old=False)
        if name == 'hutter':
            c.update(batches=1, chars=205)
        for part in range(c['parts']):
            yield dict(c, part=part)


def run(case, ctx):
    globals()[case['k']](case, ctx)
