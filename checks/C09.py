"""Every initializer delivers what it documents."""
import copy
import itertools
import math

import numpy as np

import brainstorm as bs
from brainstorm.handlers import NumpyHandler
from brainstorm.initializers import (
    ArrayInitializer, DenseSqrtFanIn, DenseSqrtFanInOut, EchoState, Gaussian,
    Identity, InitializationError, LstmOptInit, Orthogonal, RandomWalk,
    SparseInputs, SparseOutputs, Uniform, evaluate_initializer)
from vmc.core import Violation, check
from vmc.nets import expect_close, make_net

BOUNDS = {
    'quick': '12 initializer classes x all option alternatives (about 60 '
             'configurations) x 60 shapes (1-D to 4-D) x 6 seeds; moments on '
             '40x40 .. 4000-entry arrays; nested initializers; all '
             'initializer x fallback pairs; every initializer through '
             'Network.initialize on a network with every layer type',
    'thorough': 'as quick with 104 shapes and 40 seeds',
}

SHAPES = [(n,) for n in (1, 2, 3, 4, 8)] + \
    [(a, b) for a in (1, 2, 3, 4, 5, 8) for b in (1, 2, 3, 4, 5, 8)] + \
    [(1, 1, 1), (1, 2, 3), (2, 1, 3), (4, 3, 2), (2, 2, 2), (3, 3, 2),
     (8, 2, 2), (2, 3, 4), (5, 4, 1), (4, 1, 1),
     (2, 3, 4, 5), (4, 3, 3, 1), (1, 1, 1, 2), (8, 1, 2, 2), (3, 3, 3, 3)]
MORE = [(a, b) for a in (6, 7, 12, 16, 20, 33) for b in (6, 7, 12, 16, 20,
                                                         33)] + \
    [(12,), (16,), (40,), (7, 7, 2), (12, 2, 3), (16, 5, 5), (6, 5, 4, 3),
     (20, 1, 1, 2)]
BIG = [(40, 40), (1000, 4), (4, 1000), (10, 20, 20), (64, 64)]
SCALES = {
    'FanIn': dict(rel=math.sqrt(6), tanh=math.sqrt(3),
                  sigmoid=4 * math.sqrt(3), linear=1.0),
    'FanInOut': dict(rel=math.sqrt(12), tanh=math.sqrt(6),
                     sigmoid=4 * math.sqrt(6), linear=1.0)}


def uniform_in(lo, hi):
    def f(v, shape):
        check(v.min() >= lo - 1e-12 and v.max() <= hi + 1e-12,
              'values in [{}, {}] instead of [{}, {}]', v.min(), v.max(), lo,
              hi)
        n = v.size
        if n >= 1000:
            w = hi - lo
            check(abs(v.mean() - (lo + hi) / 2) < 6 * w / math.sqrt(12 * n),
                  'mean {} of a uniform distribution on [{}, {}]', v.mean(),
                  lo, hi)
            check(abs(v.std() - w / math.sqrt(12)) < 0.1 * w,
                  'standard deviation {} on [{}, {}]', v.std(), lo, hi)
            check(v.min() < lo + 0.03 * w and v.max() > hi - 0.03 * w,
                  'range [{}, {}] does not exhaust [{}, {}]', v.min(),
                  v.max(), lo, hi)
            q = np.mean(v < lo + 0.25 * w)
            check(abs(q - .25) < 6 * math.sqrt(.25 * .75 / n), 'share {} in '
                  'the first quarter of the interval', q)
    return f


def normal(mean, std):
    def f(v, shape):
        if std == 0:
            expect_close(v, np.full(shape, mean), 'values for std 0')
            return
        check(np.abs(v - mean).max() < 7 * std, 'value {} too far from mean '
              '{} (std {})', v.flat[np.abs(v - mean).argmax()], mean, std)
        n = v.size
        if n >= 1000:
            check(abs(v.mean() - mean) < 6 * std / math.sqrt(n),
                  'mean {} instead of {}', v.mean(), mean)
            check(abs(v.std() / std - 1) < 6 / math.sqrt(2 * n),
                  'standard deviation {} instead of {}', v.std(), std)
            q = np.mean(np.abs(v - mean) < std)
            check(abs(q - .6827) < 6 * math.sqrt(.22 / n), 'share {} within '
                  'one standard deviation', q)
    return f


# each entry: label -> (factory, predicate(shape) -> fits, contract)
def entries():
    out = []

    def add(label, make, fits, contract, random=True):
        out.append((label, make, fits, contract, random))

    any_shape = lambda s: True
    atleast2 = lambda s: len(s) >= 2
    matrix = lambda s: len(s) == 2
    square = lambda s: len(s) == 2 and s[0] == s[1]
    for cls, key, fan in (
            (DenseSqrtFanIn, 'FanIn', lambda s: int(np.prod(s[1:]))),
            (DenseSqrtFanInOut, 'FanInOut',
             lambda s: s[0] + int(np.prod(s[1:])))):
        for sc in (None, 'rel', 'tanh', 'sigmoid', 'linear', 0.5, 3, 2.25):
            num = SCALES[key]['rel' if sc is None else sc] \
                if not isinstance(sc, (int, float)) else sc

            def con(v, shape, num=num, fan=fan):
                lim = num / math.sqrt(fan(shape))
                uniform_in(-lim, lim)(v, shape)
            add('%s(%r)' % (cls.__name__, sc),
                lambda cls=cls, sc=sc: cls() if sc is None else cls(sc),
                atleast2, con)
    for rho in (None, 0.5, 1.0, 0.77, 2.0):
        def con(v, shape, rho=rho):
            r = np.abs(np.linalg.eigvals(v)).max()
            expect_close(r, 1.0 if rho is None else rho, 'spectral radius')
        add('EchoState(%r)' % rho,
            lambda rho=rho: EchoState() if rho is None else EchoState(rho),
            square, con)
    for a in ((), (0.5,), (1.0, 3.0), (0.01, -7.0), (2, 1), (0.0, 4.0)):
        std = a[0] if a else 0.1
        mean = a[1] if len(a) > 1 else 0.0
        add('Gaussian%r' % (a,), lambda a=a: Gaussian(*a), any_shape,
            normal(mean, std), std > 0)
    for kw in (dict(), dict(scale=2.5, std=0.0), dict(scale=-0.5, std=0.1),
               dict(enforce_square=False),
               dict(scale=3.0, std=0, enforce_square=False)):
        std, sc = kw.get('std', 0.01), kw.get('scale', 1.0)

        def con(v, shape, std=std, sc=sc):
            normal(0.0, std)(v - sc * np.eye(*shape), shape)
        add('Identity(%r)' % sorted(kw.items()),
            lambda kw=kw: Identity(**kw),
            square if kw.get('enforce_square', True) else matrix, con,
            std > 0)
    for sc in (None, 0.5, 2.0):
        def con(v, shape, sc=sc):
            s = 1.0 if sc is None else sc
            g = v.dot(v.T) if shape[0] <= shape[1] else v.T.dot(v)
            expect_close(g, s * s * np.eye(min(shape)), 'Gram matrix')
        add('Orthogonal(%r)' % sc,
            lambda sc=sc: Orthogonal() if sc is None else Orthogonal(sc),
            matrix, con)
    for kw in (dict(), dict(act_func='linear'), dict(act_func='rel'),
               dict(scale=1.7), dict(act_func='rel', scale=0.3)):
        def con(v, shape, kw=kw):
            n = shape[1]
            g = kw.get('scale')
            if g is None:
                g = math.exp(1. / (2 * n)) \
                    if kw.get('act_func', 'linear') == 'linear' else \
                    math.sqrt(2) * math.exp(1.2 / (max(n, 6) - 2.4))
            normal(0.0, g / math.sqrt(n))(v, shape)
        add('RandomWalk(%r)' % sorted(kw.items()),
            lambda kw=kw: RandomWalk(**kw), square, con)
    for cls, ax in ((SparseInputs, 0), (SparseOutputs, 1)):
        for con_n in (1, 2, 3, 5, None):
            for sub in ('two', 'gauss', 'unif'):
                n = 15 if con_n is None else con_n

                def con(v, shape, ax=ax, n=n, sub=sub):
                    cnt = (v != 0).sum(axis=ax)
                    check((cnt == n).all(), 'numbers of connections {} '
                          'instead of {}', np.unique(cnt).tolist(), n)
                    nz = v[v != 0]
                    if sub == 'two':
                        check((nz == 2.5).all(), 'connection values {}',
                              np.unique(nz))
                    elif sub == 'unif':
                        check((nz > 3).all() and (nz < 4).all(),
                              'connection values {} .. {}', nz.min(),
                              nz.max())
                    elif nz.size > 1:
                        check(np.unique(nz).size == nz.size,
                              'repeated connection values')

                def make(cls=cls, con_n=con_n, sub=sub):
                    s = {'two': 2.5, 'gauss': Gaussian(),
                         'unif': Uniform(3, 4)}[sub]
                    return cls(s) if con_n is None else \
                        cls(s, connections=con_n)
                add('%s(%s, %r)' % (cls.__name__, sub, con_n), make,
                    lambda s, ax=ax, n=n: len(s) >= 2 and s[ax] >= n, con)
    for a in ((), (0.5,), (-2.0,), (-1.0, 3.0), (0.0, 0.25), (5, 6)):
        lo, hi = (-.1, .1) if not a else (-abs(a[0]), abs(a[0])) \
            if len(a) == 1 else a
        add('Uniform%r' % (a,), lambda a=a: Uniform(*a), any_shape,
            uniform_in(lo, hi))
    subs = {'n': (lambda: 1.5), 'z': (lambda: 0.0),
            'g': (lambda: Gaussian(0.5, 3.0)), 'u': (lambda: Uniform(-2, -1))}
    for combo in ('', 'n', 'ng', 'nzng', 'gggg', 'uugg', 'guzn', 'zzzz'):
        def con(v, shape, combo=combo):
            n = shape[0] // 4
            blocks = [v[i * n:(i + 1) * n] for i in range(4)]
            for i, b in enumerate(blocks):
                c = combo[i] if i < len(combo) else 'z'
                if c in 'nz':
                    check((b == (1.5 if c == 'n' else 0)).all(),
                          'block {} is {}', i, b.ravel()[:5])
                elif c == 'g':
                    normal(3.0, 0.5)(b, b.shape)
                else:
                    uniform_in(-2, -1)(b, b.shape)
            for i, j in itertools.combinations(range(4), 2):
                if combo[i:i + 1] == combo[j:j + 1] and combo[i:i + 1] in \
                        ('g', 'u') and blocks[i].size > 1:
                    check(not np.array_equal(blocks[i], blocks[j]),
                          'blocks {} and {} have the same random values', i,
                          j)
        add('LstmOptInit(%s)' % combo,
            lambda combo=combo: LstmOptInit(*[subs[c]() for c in combo]),
            lambda s: s[0] % 4 == 0, con,
            any(c in 'gu' for c in combo))
    g = Gaussian(0.5, 3.0)
    add('LstmOptInit(same object)', lambda: LstmOptInit(g, g, g, g),
        lambda s: s[0] % 4 == 0,
        [e for e in out if e[0] == 'LstmOptInit(gggg)'][0][3])
    return out


ENTRIES = entries()


def cases(tier):
    th = tier == 'thorough'
    for i, e in enumerate(ENTRIES):
        for big in (False, True):
            yield dict(k='contract', i=i, name=e[0], th=th, big=big)
    for i in range(len(ENTRIES)):
        yield dict(k='network', i=i)
    yield dict(k='plain')
    yield dict(k='fallback')
    yield dict(k='errors')
    yield dict(k='sparse-units')


def contract(i, shapes, seeds, ctx):
    label, make, fits, con, random = ENTRIES[i]
    for shape in shapes:
        if label.startswith('EchoState') and len(shape) > 2:
            continue
        ok = fits(shape)
        seen = {}
        for seed in seeds:
            obj = make()
            try:
                v = evaluate_initializer(obj, shape, seed=seed)
            except InitializationError:
                check(not ok, '{} rejects shape {}', label, shape)
                ctx.step()
                continue
            check(ok, '{} accepts shape {} it is not defined for', label,
                  shape)
            v = np.asarray(v)
            check(v.shape == shape, '{}: shape {} instead of {}', label,
                  v.shape, shape)
            check(np.isfinite(v).all(), '{}: non-finite values for {}',
                  label, shape)
            try:
                con(v, shape)
            except Violation as e:
                raise Violation('%s for shape %s, seed %d: %s' %
                                (label, shape, seed, e.what))
            keep = v.copy()
            # the same object, a copy and a new one: function of the seed
            obj(shape)
            again = evaluate_initializer(obj, shape, seed=seed)
            check(np.array_equal(again, keep), '{}: seed {} gives different '
                  'values on second use (shape {})', label, seed, shape)
            again = evaluate_initializer(copy.deepcopy(obj), shape, seed=seed)
            check(np.array_equal(again, keep), '{}: a copy behaves '
                  'differently', label)
            again = evaluate_initializer(make(), shape, seed=seed)
            check(np.array_equal(again, keep), '{}: seed {} does not '
                  'determine the values (shape {})', label, seed, shape)
            check(np.array_equal(v, keep), '{}: result was changed later',
                  label)
            seen[seed] = keep
            ctx.step(3)
            ctx.state(label, shape, seed)
        if ok and random and np.prod(shape) > 3 and not \
                label.startswith(('Sparse', 'Orthogonal')):
            vals = list(seen.values())
            for a, b in zip(vals, vals[1:]):
                check(not np.array_equal(a, b), '{}: different seeds give '
                      'the same values', label)
        if ok and seen:
            ctx.outcome(label, shape, repr(vals[0].ravel()[:3].tolist())
                        if random and np.prod(shape) > 3 and not
                        label.startswith(('Sparse', 'Orthogonal')) else '')
    ctx.trace()


def all_layers():
    O = lambda l, n='default': [l, 'outputs.' + n]
    return [
        ['Input', 'Input', {'out_shapes': {'default': [4, 4, 2]}}, {}],
        ['c', 'Convolution2D', {'num_filters': 3, 'kernel_size': [2, 2]},
         {'default': [O('Input')]}],
        ['f', 'FullyConnected', {'size': 16}, {'default': [O('c')]}],
        ['r', 'Recurrent', {'size': 16}, {'default': [O('f')]}],
        ['l', 'Lstm', {'size': 16}, {'default': [O('r')]}],
        ['b', 'BatchNorm', {}, {'default': [O('l')]}],
        ['g', 'FullyConnected', {'size': 16}, {'default': [O('b')]}],
    ]


def run(case, ctx):
    k = case['k']
    if k == 'contract':
        if case['big']:
            shapes, seeds = BIG, range(3)
        elif case['th']:
            shapes, seeds = SHAPES + MORE, range(40)
        else:
            shapes, seeds = SHAPES, [0, 1, 2, 7, 12345, 999999999]
        contract(case['i'], shapes, seeds, ctx)
    elif k == 'network':
        label, make, fits, con, random = ENTRIES[case['i']]
        spec = all_layers()
        res = {}
        for seed in (3, 4):
            for rep in range(2):
                net = make_net(spec)
                if rep:
                    net.initialize(Gaussian(), seed=77)
                net.initialize(default=make(), fallback=-4, seed=seed)
                vals = {}
                for l in net.layers:
                    for p in net.buffer[l].parameters.keys():
                        v = net.get('%s.parameters.%s' % (l, p))
                        if label.startswith('EchoState') and v.ndim > 2:
                            continue
                        vals[l, p] = v
                        if fits(v.shape):
                            con(v, v.shape)
                        else:
                            check((v == -4).all(), '{}: fallback not used '
                                  'for {}.{}', label, l, p)
                        ctx.step()
                if rep:
                    for n in vals:
                        check(np.array_equal(vals[n], res[seed][n]),
                              '{}: initialize is not a function of the seed '
                              'for {}', label, n)
                res[seed] = vals
        v = res[3]
        if random:
            fresh = [n for n in v if fits(v[n].shape) and v[n].size > 4
                     and not (label.startswith(('Sparse', 'Orth')) and
                              v[n].shape != (16, 16))]
            for a, b in itertools.combinations(fresh, 2):
                if v[a].shape == v[b].shape:
                    check(not np.array_equal(v[a], v[b]), '{}: parameters {} '
                          'and {} got the same random values', label, a, b)
            for n in fresh:
                check(not np.array_equal(v[n], res[4][n]),
                      '{}: seeds 3 and 4 give the same {}', label, n)
        ctx.trace()
        ctx.state('network', label)
    elif k == 'plain':
        for shape in SHAPES + MORE:
            for x in (0, 1, -3, 2.5, -0.0, 1e300):
                v = evaluate_initializer(x, shape, seed=1)
                check(v.shape == shape and (v == x).all(),
                      'constant {} for shape {}', x, shape)
                ctx.step()
            arr = np.arange(int(np.prod(shape))).reshape(shape) + 0.5
            for src in (arr, arr.tolist(), ArrayInitializer(arr),
                        ArrayInitializer(arr.tolist())):
                v = evaluate_initializer(src, shape)
                check(np.array_equal(v, arr), 'array for shape {}', shape)
                for other in SHAPES:
                    if other == shape:
                        continue
                    try:
                        evaluate_initializer(src, other)
                    except InitializationError:
                        continue
                    raise Violation('array of shape %s accepted for %s' %
                                    (shape, other))
                ctx.step()
            ctx.state(shape)
        ctx.trace()
    elif k == 'fallback':
        for i, e in enumerate(ENTRIES):
            for j, f in enumerate(ENTRIES):
                for shape in ((3,), (4,), (3, 3), (2, 3), (4, 1), (2, 1, 2)):
                    if 'EchoState' in e[0] + f[0] and len(shape) > 2:
                        continue
                    use = e if e[2](shape) else f
                    try:
                        v = evaluate_initializer(e[1](), shape, f[1](),
                                                 seed=5)
                    except InitializationError:
                        check(not e[2](shape) and not f[2](shape),
                              '{} with fallback {} fails for {}', e[0], f[0],
                              shape)
                        continue
                    check(use[2](shape), '{} with fallback {} accepted {}',
                          e[0], f[0], shape)
                    check(v.shape == shape, 'shape')
                    use[3](np.asarray(v), shape)
                    again = evaluate_initializer(e[1](), shape, f[1](),
                                                 seed=5)
                    check(np.array_equal(v, again), '{} with fallback {}: '
                          'the seed does not determine the values', e[0],
                          f[0])
                    ctx.step()
            for fb, val in ((2.5, 2.5), (0, 0)):
                v = evaluate_initializer(e[1](), (3,), fb, seed=1)
                if not e[2]((3,)):
                    check((v == val).all() and v.shape == (3,),
                          '{} with fallback {}', e[0], fb)
            ctx.state(e[0])
        ctx.trace()
    elif k == 'errors':
        for bad in ('Gaussian', None, {'a': 1}, object(), (1, 2)):
            try:
                evaluate_initializer(bad, (2,))
            except TypeError:
                ctx.step()
                continue
            raise Violation('%r accepted as initializer' % (bad,))
        for lo, hi in ((1, 1), (2, 1), (0, None), (0.0, -1.0)):
            try:
                Uniform(lo, hi)
            except AssertionError:
                ctx.step()
                continue
            raise Violation('Uniform(%r, %r) accepted' % (lo, hi))
        for cls in (DenseSqrtFanIn, DenseSqrtFanInOut):
            try:
                cls('nonsense')((2, 2))
            except Exception:
                ctx.step()
                continue
            raise Violation('%s("nonsense") accepted' % cls.__name__)
        ctx.trace()
        ctx.state('errors')
    else:
        # a unit of a layer has exactly this many incoming connections
        for n in (1, 2, 3):
            net = make_net([
                ['Input', 'Input', {'out_shapes': {'default': [4]}}, {}],
                ['f', 'FullyConnected', {'size': 5},
                 {'default': [['Input', 'outputs.default']]}]])
            for cls in (SparseInputs, SparseOutputs):
                net.initialize({'f': {'W': cls(1, connections=n),
                                      'bias': 0}}, seed=n)
                hit = []
                for i in range(4):
                    x = np.zeros((1, 1, 4))
                    x[0, 0, i] = 1.0
                    net.provide_external_data({'default': x})
                    net.forward_pass()
                    hit.append(net.get('f.outputs.default')[0, 0] > 0)
                hit = np.array(hit)              # [input, unit]
                good, other = hit.sum(0), hit.sum(1)
                if cls is SparseOutputs:
                    good, other = other, good
                ctx.step()
                if (good == n).all():
                    continue
                raise Violation(
                    '%s(connections=%d): connections per unit %s' %
                    (cls.__name__, n, good.tolist()),
                    finding='sparse-transposed' if (other == n).all()
                    else None)
        ctx.trace()
        ctx.state('sparse')
