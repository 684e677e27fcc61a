"""Transforming iterators transform exactly and leave sources intact."""
import itertools
import math

import numpy as np

from brainstorm.data_iterators import (AddGaussianNoise, AddSaltNPepper, Flip,
                                       Minibatches, MultiHot, OneHot, Pad,
                                       RandomCrop, Undivided)
from brainstorm.handlers import NumpyHandler
from brainstorm.utils import IteratorValidationError
from vmc.core import Violation, check
from vmc.nets import gen

BOUNDS = {
    'quick': 'images H,W<=4, C<=2, T<=2, N<=3, 6 data types; all crop shapes, '
             'pad sizes <=3 x 4 values, flip probabilities {0,.5,1}, all '
             'one-hot/multi-hot index patterns of 3 indices over 3 classes; '
             'all ordered pairs and triples of 7 image transforms on '
             'divided and undivided data; 3 epochs x 3 seeds each; noise '
             'moments on 4000 entries for 12 mean/std and 12 prob/ratio '
             'settings',
    'thorough': 'as quick with H,W<=6 and all quadruples of transforms',
}

DTYPES = [np.float64, np.float32, np.int64, np.int32, np.uint8, np.bool_]


def image(T, N, H, W, C, dtype=np.float64):
    n = T * N * H * W * C
    v = np.arange(1, n + 1).reshape(T, N, H, W, C)
    if dtype is np.bool_:
        return (v % 3 == 0)
    return (v % 251 if dtype is np.uint8 else v).astype(dtype)


def sources(x):
    """Wrapped iterators over x plus an unrelated array and images."""
    T, N = x.shape[:2]
    other = 1000. + np.arange(T * N * 2).reshape(T, N, 2)
    img2 = -1.0 - np.arange(T * N * 8).reshape(T, N, 2, 4, 1)
    mk = lambda: dict(default=x.copy(), other=other.copy(), img2=img2.copy())
    d1, d2, d3 = mk(), mk(), mk()
    yield 'undivided', Undivided(**d1), d1, [list(range(N))]
    yield 'single', Minibatches(1, False, **d2), d2, [[i] for i in range(N)]
    yield 'pairs', Minibatches(2, False, **d3), d3, \
        [list(range(i, min(i + 2, N))) for i in range(0, N, 2)]


# ------------------------------------------- transforms and their candidates

class T_(object):
    def __init__(self, label, make, cands, key='default'):
        self.label, self.make, self.cands, self.key = label, make, cands, key


def pad(size, val):
    def cands(x):
        return [np.pad(x.astype(float), [(0, 0), (size, size), (size, size),
                                         (0, 0)], mode='constant',
                       constant_values=0.0 if val is None else val)]
    return T_('Pad(%r, %r)' % (size, val),
              lambda it: Pad(it, {'default': size}) if val is None else
              Pad(it, {'default': size}, {'default': val}), cands)


def crop(shape):
    def cands(x):
        h, w = shape
        return [x[:, r:r + h, c:c + w].astype(float)
                for r in range(x.shape[1] - h + 1)
                for c in range(x.shape[2] - w + 1)]
    return T_('RandomCrop(%r)' % (shape,),
              lambda it: RandomCrop(it, {'default': shape}), cands)


def flip(p):
    def cands(x):
        f = x[:, :, ::-1]
        return [x] if p == 0 else [f] if p == 1 else [x, f]
    return T_('Flip(%r)' % p, lambda it: Flip(it, {'default': p})
              if p is not None else Flip(it), cands)


def shift(m):
    return T_('AddGaussianNoise(0, %r)' % m,
              lambda it: AddGaussianNoise(it, {'default': 0.0},
                                          {'default': m}),
              lambda x: [x.astype(float) + m])


def other_flip():
    return T_('Flip(img2)', lambda it: Flip(it, {'img2': 0.5}),
              lambda x: [x, x[:, :, ::-1]], 'img2')


POOL = [pad(1, None), pad(2, 7.5), crop((2, 2)), flip(0.5), flip(1.0),
        shift(3.25), other_flip()]


def cases(tier):
    th = tier == 'thorough'
    n = 7 if th else 5
    for H, W in itertools.product(range(1, n), repeat=2):
        for C in (1, 2):
            yield dict(k='crop', H=H, W=W, C=C)
            yield dict(k='pad', H=H, W=W, C=C)
            yield dict(k='flip', H=H, W=W, C=C)
    for a in range(len(POOL)):
        for r in (1, 2, 3) + ((4,) if th else ()):
            yield dict(k='compose', first=a, r=r)
    for a in range(3):
        yield dict(k='hot', first=a)
    for i in range(12):
        yield dict(k='noise', i=i)
        yield dict(k='salt', i=i)
    for i in range(6):
        yield dict(k='cover', i=i)
    yield dict(k='errors')
    yield dict(k='seeds')


def apply_chain(chain, src):
    it = src
    for t in chain:
        it = t.make(it)
    return it


def check_chain(chain, x, ctx, epochs=2, seeds=(0, 5)):
    label = ' then '.join(t.label for t in chain)
    for kind, src, data, batches in sources(x):
        keep = {k: v.copy() for k, v in data.items()}
        it = apply_chain(chain, src)
        check(it.length == len(batches), '{}: length', label)
        cand = {}
        for key in ('default', 'img2'):
            for b in range(x.shape[1]):
                cs = [keep[key][:, b]]
                for t in chain:
                    if t.key == key:
                        cs = [d for c in cs for d in t.cands(c)]
                cand[key, b] = cs
        for e in range(epochs):
            got = list(it(handler=None if e else NumpyHandler(np.float64)))
            check(len(got) == len(batches), '{}: {} batches', label, len(got))
            for g, idx in zip(got, batches):
                check(set(g) == set(data), '{}: names {}', label, sorted(g))
                check(np.array_equal(g['other'], keep['other'][:, idx]),
                      '{}: changed an array it was not asked to', label)
                for key in ('default', 'img2'):
                    for j, b in enumerate(idx):
                        v = g[key][:, j]
                        check(any(v.shape == c.shape and np.array_equal(v, c)
                                  for c in cand[key, b]),
                              '{} over {}: sequence {} of {} became {}',
                              label, kind, b, key, v.tolist())
                ctx.step()
        for k, v in data.items():
            check(np.array_equal(v, keep[k]) and v.dtype == keep[k].dtype,
                  '{} over {} changed the data of the user ({})', label,
                  kind, k)


def moments(x, mean, std, what):
    n = x.size
    check(abs(x.mean() - mean) <= 6 * std / math.sqrt(n) + 1e-9,
          '{}: mean {} instead of {}', what, x.mean(), mean)
    check(abs(x.std() - std) <= 6 * std / math.sqrt(2 * n) + 1e-9,
          '{}: standard deviation {} instead of {}', what, x.std(), std)


def share(cnt, n, p, what):
    check(abs(cnt / float(n) - p) <= 6 * math.sqrt(p * (1 - p) / n) + 1e-12,
          '{}: share {} instead of {}', what, cnt / float(n), p)


def run(case, ctx):
    k = case['k']
    if k == 'crop':
        H, W, C = case['H'], case['W'], case['C']
        for h in range(0, H + 1):
            for w in range(0, W + 1):
                for T, N in ((1, 3), (2, 2)):
                    check_chain([crop((h, w))], image(T, N, H, W, C), ctx)
                    ctx.state('crop', H, W, C, h, w, T, N)
        for dt in DTYPES:
            check_chain([crop((H - H // 2, W - W // 2))],
                        image(1, 2, H, W, C, dt), ctx)
        for bad in ((H + 1, W), (H, W + 1), (-1, W), (H, -1), [H, W], H,
                    (H, W, C)):
            expect_error(lambda: RandomCrop(Undivided(
                default=image(1, 2, H, W, C)), {'default': bad}),
                'crop shape %r for %dx%d' % (bad, H, W), ctx)
        ctx.trace()
    elif k == 'pad':
        H, W, C = case['H'], case['W'], case['C']
        for size in range(4):
            for val in (None, 0, 1.5, -3):
                check_chain([pad(size, val)], image(2, 3, H, W, C), ctx)
                ctx.state('pad', H, W, C, size, val)
        for dt in DTYPES:
            check_chain([pad(1, 2.5)], image(1, 2, H, W, C, dt), ctx)
        ctx.trace()
    elif k == 'flip':
        H, W, C = case['H'], case['W'], case['C']
        for p in (0.0, 0.5, 1.0, None, 0, 1):
            for dt in DTYPES:
                check_chain([flip(p)], image(2, 3, H, W, C, dt), ctx, 3)
            ctx.state('flip', H, W, C, p)
        for bad in (1.5, -0.1):
            expect_error(lambda: Flip(Undivided(
                default=image(1, 2, H, W, C)), {'default': bad}),
                'flip probability %r' % bad, ctx)
        ctx.trace()
    elif k == 'compose':
        for rest in itertools.product(range(len(POOL)),
                                      repeat=case['r'] - 1):
            chain = [POOL[i] for i in (case['first'],) + rest]
            check_chain(chain, image(2, 3, 3, 4, 2), ctx)
            ctx.state('compose', case['first'], rest)
        ctx.trace()
    elif k == 'hot':
        for rest in itertools.product(range(3), repeat=2):
            for vocab in (3, 4):
                for dt in (np.int64, np.int32, np.uint8):
                    idx = np.array((case['first'],) + rest)
                    hot(idx, vocab, dt, ctx)
                    ctx.state('hot', idx.tobytes(), vocab, dt.__name__)
        ctx.trace()
    elif k == 'noise':
        std, mean = list(itertools.product((0.5, 1.0, 3.0),
                                           (None, 2.0, -1.5, 0.0)))[case['i']]
        x = gen('x', (4, 10, 100))
        y = gen('y', (4, 10, 3))
        for kind in ('u', 'm'):
            d = dict(default=x.copy(), y=y.copy())
            src = Undivided(**d) if kind == 'u' else Minibatches(5, False,
                                                                 **d)
            it = AddGaussianNoise(src, {'default': std}) if mean is None \
                else AddGaussianNoise(src, {'default': std},
                                      {'default': mean})
            it.rnd.set_seed(case['i'])
            prev = None
            for e in range(3):
                got = list(it())
                v = np.concatenate([g['default'] for g in got], 1)
                check(np.array_equal(np.concatenate([g['y'] for g in got], 1),
                                     y), 'noise on an unnamed array')
                moments(v - x, mean or 0.0, std, 'noise std=%r mean=%r, '
                        'epoch %d' % (std, mean, e))
                if prev is not None:
                    check(not np.array_equal(prev, v),
                          'the same noise in every epoch')
                    n1, n2 = (prev - x).ravel(), (v - x).ravel()
                    moments(n1 - n2, 0.0, std * math.sqrt(2), 'difference of '
                            'the noise of two epochs')
                n = (v - x).reshape(-1)
                check(np.unique(n).size > 0.99 * n.size, 'repeated noise')
                prev = v
                ctx.step()
            check(np.array_equal(d['default'], x), 'user data changed')
        ctx.state(std, mean)
        ctx.trace()
    elif k == 'salt':
        pr, ratio = list(itertools.product((0.0, 0.3, 1.0), (None, 0.2, 1.0,
                                                               0.0)
                                           ))[case['i']]
        x = gen('x', (4, 10, 100), 0.2, 0.8)
        y = gen('y', (4, 10, 3))
        for kind in ('u', 'm'):
            d = dict(default=x.copy(), y=y.copy())
            src = Undivided(**d) if kind == 'u' else Minibatches(5, False,
                                                                 **d)
            it = AddSaltNPepper(src, {'default': pr}) if ratio is None else \
                AddSaltNPepper(src, {'default': pr}, {'default': ratio})
            it.rnd.set_seed(case['i'])
            prev = None
            for e in range(3):
                got = list(it())
                v = np.concatenate([g['default'] for g in got], 1)
                check(np.array_equal(np.concatenate([g['y'] for g in got], 1),
                                     y), 'noise on an unnamed array')
                check(((v == x) | (v == 1) | (v == 0)).all(),
                      'values that are neither original nor salt nor pepper')
                r = 0.5 if ratio is None else ratio
                what = 'salt&pepper prob=%r ratio=%r' % (pr, ratio)
                share((v == 1).sum(), v.size, pr * r, what + ' (salt)')
                share((v == 0).sum(), v.size, pr * (1 - r),
                      what + ' (pepper)')
                if prev is not None and 0 < pr < 1:
                    check(not np.array_equal(prev, v),
                          'the same noise in every epoch')
                prev = v
                ctx.step()
            check(np.array_equal(d['default'], x), 'user data changed')
        ctx.state(pr, ratio)
        ctx.trace()
    elif k == 'cover':
        # every window / both directions really occur, for every sequence
        H, W, h, w = [(3, 3, 1, 1), (3, 3, 2, 2), (4, 3, 3, 1), (2, 4, 2, 2),
                      (3, 3, 3, 2), (2, 2, 1, 1)][case['i']]
        x = image(1, 2, H, W, 1)
        it = RandomCrop(Undivided(default=x), {'default': (h, w)})
        it.rnd.set_seed(case['i'])
        seen = [set(), set()]
        both = set()
        for e in range(400):
            g = next(iter(it()))['default']
            pos = []
            for b in range(2):
                o = int(g[0, b, 0, 0, 0]) - 1 - b * H * W
                seen[b].add(o)
                pos.append(o)
            both.add(tuple(pos))
            ctx.step()
        want = {r * W + c for r in range(H - h + 1) for c in range(W - w + 1)}
        for b in range(2):
            check(seen[b] == want, 'crop windows {} never chosen for '
                  'sequence {}', sorted(want - seen[b]), b)
        if len(want) > 1:
            check(any(a != b for a, b in both), 'all sequences get the same '
                  'window')
        fl = Flip(Undivided(default=x))
        fl.rnd.set_seed(case['i'])
        cnt = {}
        for e in range(400):
            g = next(iter(fl()))['default']
            key = tuple(np.array_equal(g[:, b], x[:, b]) for b in range(2))
            cnt[key] = cnt.get(key, 0) + 1
        if W > 1:
            check(len(cnt) == 4, 'flip decisions {}', sorted(cnt))
            for v in cnt.values():
                share(v, 400, 0.25, 'flip decisions')
        ctx.state('cover', case['i'])
        ctx.trace()
    elif k == 'seeds':
        x = image(2, 3, 4, 4, 2)
        mks = [lambda s: AddGaussianNoise(s, {'default': 1.0}),
               lambda s: AddSaltNPepper(s, {'default': 0.5}),
               lambda s: Flip(s), lambda s: RandomCrop(s,
                                                       {'default': (2, 2)})]
        for mk in mks:
            for seed in range(6):
                def play(n, draws=0):
                    it = mk(Undivided(default=x))
                    for _ in range(draws):
                        next(iter(it()))
                    it.rnd.set_seed(seed)
                    return [next(iter(it()))['default'] for _ in range(n)]
                a = play(4)
                for d in (0, 1, 3):
                    b = play(4, d)
                    check(all(np.array_equal(p, q) for p, q in zip(a, b)),
                          'the seed does not determine the transformation')
                check(any(not np.array_equal(a[0], q) for q in a[1:]),
                      'every epoch is transformed the same way')
                ctx.step(4)
                ctx.state(seed, mks.index(mk))
        ctx.trace()
    else:
        x = image(1, 2, 3, 3, 1)
        u = lambda: Undivided(default=x, flat=np.zeros((1, 2, 3)),
                              idx=np.zeros((1, 2, 1), int),
                              idx2=np.zeros((1, 2, 2), int))
        bad = [
            lambda: AddGaussianNoise(u(), {'nosuch': 1.0}),
            lambda: AddGaussianNoise(u(), {'default': 1.0}, {'flat': 1.0}),
            lambda: AddGaussianNoise(u(), {'default': 1.0}, {}),
            lambda: AddSaltNPepper(u(), {'nosuch': .1}),
            lambda: AddSaltNPepper(u(), {'default': .1}, {'flat': .1}),
            lambda: Flip(u(), {'nosuch': .5}), lambda: Flip(u(),
                                                            {'flat': .5}),
            lambda: Flip(Undivided(x=x)),
            lambda: Pad(u(), {'nosuch': 1}), lambda: Pad(u(), {'flat': 1}),
            lambda: Pad(u(), {'default': 1}, {'flat': 1}),
            lambda: RandomCrop(u(), {'nosuch': (1, 1)}),
            lambda: RandomCrop(u(), {'flat': (1, 1)}),
            lambda: OneHot(u(), {'nosuch': 3}), lambda: OneHot(u(),
                                                               {'idx': 3.0}),
            lambda: OneHot(u(), {'idx2': 3}), lambda: OneHot(u(),
                                                             {'default': 3}),
            lambda: MultiHot(u(), {'nosuch': 3}),
            lambda: MultiHot(u(), {'idx': 3.0}),
            lambda: MultiHot(u(), {'default': 3}),
        ]
        for i, f in enumerate(bad):
            expect_error(f, 'ill-formed iterator #%d' % i, ctx)
        ctx.trace()
        ctx.state('errors')


def expect_error(f, what, ctx):
    try:
        f()
    except IteratorValidationError:
        ctx.step()
        return
    raise Violation('%s accepted' % what)


def hot(idx, vocab, dt, ctx):
    x = idx.reshape(3, 1, 1).astype(dt)
    x = np.concatenate([x, (x + 1) % 3, x[::-1]], 1)       # (3, 3, 1)
    m = np.concatenate([x, x[:, ::-1]], 2)                 # (3, 3, 2)
    data = dict(default=x, multi=m, other=np.ones((3, 3, 2)))
    for kind in range(3):
        d = {k: v.copy() for k, v in data.items()}
        src = Undivided(**d) if kind == 0 else Minibatches(kind, False, **d)
        for it, names in ((OneHot(src, {'default': vocab}), ['default']),
                          (MultiHot(src, {'multi': vocab}), ['multi']),
                          (MultiHot(src, {'multi': vocab, 'default': vocab}),
                           ['multi', 'default']),
                          (MultiHot(OneHot(src, {'default': vocab}),
                                    {'multi': vocab}), ['multi', 'default'])):
            for h in (None, NumpyHandler(np.float64)):
                got = list(it(handler=h) if h else it())
                for n in data:
                    v = np.concatenate([g[n] for g in got], 1)
                    if n not in names:
                        check(np.array_equal(v, data[n]), 'array {} changed',
                              n)
                        continue
                    exp = np.zeros((3, 3, vocab))
                    for t in range(3):
                        for b in range(3):
                            for f in range(data[n].shape[2]):
                                exp[t, b, data[n][t, b, f]] = 1
                    check(v.shape == exp.shape and np.array_equal(v, exp),
                          'encoding of {} with {} classes: {}',
                          data[n].tolist(), vocab, v.tolist())
                ctx.step()
        for n in data:
            check(np.array_equal(d[n], data[n]) and d[n].dtype ==
                  data[n].dtype, 'user data {} changed', n)
