"""Everything is reproducible from seeds."""
import copy
import hashlib
import itertools
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile

import numpy as np

import brainstorm as bs
from brainstorm import data_iterators as di
from brainstorm import initializers as ini
from brainstorm.handlers import NumpyHandler
from brainstorm.randomness import RandomState, Seedable
from brainstorm.training import MomentumStepper, SgdStepper, Trainer
from brainstorm.value_modifiers import ConstrainL2Norm, ValueModifier
from vmc.core import VERIF, check, worker_env
from vmc.nets import gen

BOUNDS = {
    'quick': 'all sequences of <=4 of 13 operations on random states (draws, '
             'seeding, reset, children, copies, pickling); 14 programs '
             '(initializers, modifiers, iterators, dropout, noise, training, ...) x 2 '
             'global seeds x repetition x every other program run before x '
             'foreign random state; the same programs in separate processes '
             'under 16 hash seeds; all interleavings of 2 operations of each '
             'of any 4 of 6 components; explicit seeds against 3 global '
             'seeds; pairwise different streams of 10 components',
    'thorough': 'as quick with sequences of <=5 operations, 64 hash seeds '
                'and interleavings of 5 components',
}

OPS = ['int', 'normal', 'shuffle', 'gen', 'child', 'child7', 'set5', 'seed5',
       'set9', 'reset', 'pickle', 'copy', 'deepcopy']


def cases(tier):
    th = tier == 'thorough'
    for a in OPS:
        for b in OPS:
            yield dict(k='ops', pre=[a, b], depth=5 if th else 4)
    for p in sorted(PROGRAMS):
        yield dict(k='program', p=p)
    for h in range(1, 65 if th else 17):
        yield dict(k='process', hashseed=h * 7919 % 4294967295)
    comps = sorted(COMPONENTS)
    for group in itertools.combinations(comps, 5 if th else 4):
        yield dict(k='interleave', group=list(group))
    yield dict(k='explicit')
    yield dict(k='independent')


# ------------------------------------------- operations on random states --

def apply(op, r):
    """Apply op to the random state r; returns (observation, new r)."""
    if op == 'int':
        return [int(r.randint(1000000)), int(r.randint(1000000))], r
    if op == 'normal':
        return [float(r.standard_normal()) for _ in range(3)], r
    if op == 'shuffle':
        x = np.arange(6)
        r.shuffle(x)
        return x.tolist(), r
    if op == 'gen':
        s = r.generate_seed()
        check(0 <= s < 1000000000, 'generate_seed returned {}', s)
        return int(s), r
    if op in ('child', 'child7'):
        c = r.create_random_state() if op == 'child' else \
            r.create_random_state(7)
        check(isinstance(c, RandomState), 'create_random_state returned a '
              '{}', type(c))
        if op == 'child7':
            check(c.get_seed() == 7, 'seed of a seeded child')
        return [int(c.get_seed()), int(c.randint(1000000))], r
    if op == 'set5':
        r.set_seed(5)
        return None, r
    if op == 'set9':
        r.set_seed(9)
        return None, r
    if op == 'seed5':
        r.seed(5)
        return None, r
    if op == 'reset':
        r.reset()
        return None, r
    if op == 'pickle':
        return None, pickle.loads(pickle.dumps(r))
    if op == 'copy':
        return None, copy.copy(r)
    if op == 'deepcopy':
        return None, copy.deepcopy(r)
    raise KeyError(op)


DRAWS = ('int', 'normal', 'shuffle', 'gen', 'child', 'child7')
SEED = {'set5': 5, 'seed5': 5, 'set9': 9}


def observe(start, history):
    """What the draws of history give on a fresh state of that seed."""
    r = RandomState(start)
    return [apply(op, r)[0] for op in history]


def ops(case, ctx):
    memo = {}
    for n in range(0, case['depth'] - 1):
        for rest in itertools.product(OPS, repeat=n):
            word = case['pre'] + list(rest)
            bs.global_rnd.set_seed(77)
            alive = [(RandomState(3), 3, ())]
            for op in word:
                nxt = []
                for r, seed, hist in alive:
                    obs, new = apply(op, r)
                    if op in DRAWS:
                        h = hist + (op,)
                        key = (seed, h)
                        if key not in memo:
                            memo[key] = observe(seed, h)[-1]
                        check(obs == memo[key], 'after {} the operation {} '
                              'gave {}, but {} on a fresh state with seed {} '
                              'after {}', word, op, obs, memo[key], seed,
                              list(hist))
                        nxt.append((r, seed, h))
                    elif op in SEED or op == 'reset':
                        nxt.append((r, SEED.get(op, seed), ()))
                    else:
                        check(type(new) is RandomState and new is not r,
                              '{} of a random state gave a {}', op,
                              type(new))
                        nxt.append((r, seed, hist))
                        nxt.append((new, seed, hist))
                alive = nxt
                for r, seed, hist in alive:
                    check(r.get_seed() == seed, 'after {} the seed is {} '
                          'instead of {}', word, r.get_seed(), seed)
                ctx.step(len(alive))
            # every copy continues on its own, in any order
            for order in (alive, alive[::-1]):
                if len(alive) == 1 and order is not alive:
                    continue
                got = [(int(r.randint(1 << 30)), seed, hist)
                       for r, seed, hist in order]
                for x, seed, hist in got:
                    f = RandomState(seed)
                    for op in hist:
                        apply(op, f)
                    want = int(f.randint(1 << 30))
                    if order is alive:
                        check(x == want, 'after {} the stream continues with '
                              '{} instead of {}', word, x, want)
                ctx.step(len(alive))
            if not set(word) & {'gen', 'child'}:
                numpy_stream(word)
            check(bs.global_rnd.randint(1 << 30) == untouched(77),
                  'operations {} on one random state changed global_rnd',
                  word)
            ctx.state(tuple(word))
    ctx.trace()


def untouched(seed):
    return np.random.RandomState(seed).randint(1 << 30)


def numpy_stream(word):
    r, n, seed = RandomState(3), np.random.RandomState(3), 3
    for op in word:
        if op in ('int', 'normal', 'shuffle'):
            a, b = apply(op, r)[0], apply(op, n)[0]
            check(a == b, 'the stream of {} differs from that of numpy',
                  word)
        elif op in SEED or op == 'reset':
            seed = SEED.get(op, seed)
            r.set_seed(seed)
            n.seed(seed)


# -------------------------------------------------------------- programs --

T = ('T', 'B')


def chain(*ls):
    x = ls[0]
    for l in ls[1:]:
        x = x >> l
    return x


def p_initializers():
    L = bs.layers
    x = chain(L.Input({'default': T + (4,)}), L.FullyConnected(
        4, name='alpha'), L.FullyConnected(4, name='beta'), L.Lstm(
            3, name='gamma'), L.Recurrent(3, name='delta'),
        L.FullyConnected(4, name='eps'), L.FullyConnected(4, name='zeta'),
        L.ClockworkLstm(3, name='eta'))
    net = bs.Network.from_layer(x)
    inits = [ini.DenseSqrtFanIn(), ini.DenseSqrtFanInOut(), ini.EchoState(),
             ini.Gaussian(0.3), ini.Identity(1.0, 0.1, False),
             ini.Orthogonal(), ini.RandomWalk(), ini.SparseInputs(
                 ini.Gaussian(), 2), ini.SparseOutputs(ini.Uniform(), 2),
             ini.Uniform(-1, 2)]
    out = []
    for i in inits:
        net.initialize({'default': i, 'fallback': ini.Gaussian(0.5)})
        out.append(net.get('parameters'))
    net.initialize(
        {'gamma': {'W*': ini.Gaussian(), 'R*': ini.Orthogonal(),
                   'b*': ini.Uniform()}, 'default': ini.Gaussian(),
         'fallback': ini.Uniform()})
    out.append(net.get('parameters'))
    return out


def p_dropout():
    L = bs.layers
    net = bs.Network.from_layer(chain(
        L.Input({'default': T + (9,)}), L.Dropout(0.5),
        L.FullyConnected(7), L.Dropout(0.3), L.Dropout(0.3, name='last')))
    net.initialize(ini.Gaussian())
    net.provide_external_data({'default': np.ones((2, 3, 9))})
    out = []
    for i in range(3):
        net.forward_pass(training_pass=True)
        out += [net.get(n + '.outputs.default') for n in
                ('Dropout_1', 'Dropout_2', 'last')]
    return out


def batches(it, times=2):
    out = []
    h = NumpyHandler(np.float64)
    for _ in range(times):
        for b in it(h):
            out += [np.array(b[k]) for k in sorted(b)]
    return out


def p_minibatches():
    d = gen('mb', (2, 12, 2))
    return batches(di.Minibatches(2, True, default=d, x=d * 2), 3) + \
        batches(di.Minibatches(1, True, default=d))


def img(n):
    return gen(n, (2, 3, 6, 5, 2))


def p_iterators():
    def base():
        return di.Minibatches(2, True, zeta=img('z'), alpha=img('a'),
                              mid=img('m'))
    keys = ('zeta', 'alpha', 'mid')
    return batches(di.AddGaussianNoise(base(), {k: 0.5 for k in keys})) + \
        batches(di.AddSaltNPepper(base(), {k: 0.5 for k in keys})) + \
        batches(di.Flip(base(), {k: 0.5 for k in keys})) + \
        batches(di.RandomCrop(base(), {k: (3, 2) for k in keys})) + \
        batches(di.Flip(di.RandomCrop(di.AddGaussianNoise(
            base(), {'alpha': 1.0}), {'alpha': (2, 3)}), {'zeta': 0.5}))


class Noise(ValueModifier):
    def __init__(self, std=0.1):
        super(Noise, self).__init__()
        self.std = std

    def __call__(self, handler, view):
        handler.set_from_numpy(view, handler.get_numpy_copy(view) +
                               self.std * self.rnd.standard_normal(
                                   view.shape))


def classifier(drop=0.3):
    L = bs.layers
    x = L.Input({'default': T + (3,), 'targets': T + (1,)})
    hid = L.FullyConnected(4, 'tanh', name='hid')
    rec = L.Lstm(3, name='rec')
    out = L.SoftmaxCE(name='out')
    x >> L.Dropout(drop) >> hid >> rec >> L.Dropout(drop) >> \
        L.FullyConnected(3, 'linear', name='proj') >> out
    hid >> L.FullyConnected(2, 'rel', name='skip') >> rec
    x - 'targets' >> 'targets' - out
    out - 'loss' >> L.Loss()
    return bs.Network.from_layer(x)


def cdata():
    return dict(default=gen('cd', (3, 7, 3)),
                targets=(np.arange(21).reshape(3, 7, 1) * 5 // 3 % 3
                         ).astype(float))


def p_train(stepper=None, handler=None):
    net = classifier()
    if handler:
        net.set_handler(handler())
    net.initialize(ini.Gaussian(0.4))
    net.set_weight_modifiers({'hid': ConstrainL2Norm(0.9),
                              'proj': {'W': Noise(0.01)}})
    net.set_gradient_modifiers({'rec': Noise(0.05), 'default': Noise(0.02)})
    tr = Trainer(stepper or MomentumStepper(0.1, 0.9), verbose=False)
    tr.add_hook(bs.hooks.StopAfterEpoch(3))
    tr.train(net, di.AddGaussianNoise(di.Minibatches(2, True, **cdata()),
                                      {'default': 0.1}))
    return [net.get('parameters'), np.array(
        tr.logs['rolling_training']['total_loss'][1:]
        if 'total_loss' in tr.logs['rolling_training'] else [0])]


def p_train64():
    return p_train(SgdStepper(0.2), lambda: NumpyHandler(np.float64))


def p_spec():
    net = bs.tools.create_net_from_spec('classification', (5, 5, 1), 3,
                                        'D Cr2:2 P2 F6 B Ft5 D.2')
    net.provide_external_data({'default': np.ones((1, 4, 5, 5, 1)),
                               'targets': np.zeros((1, 4, 1))})
    net.forward_pass(training_pass=True)
    net.backward_pass()
    return [net.get('parameters'), net.get('gradients')]


def p_shuffle():
    x = np.arange(60.0).reshape(2, 10, 3)
    return bs.tools.shuffle_data(x, x[:, :, :1]) + \
        bs.tools.shuffle_data(x, None)[:1] + \
        bs.tools.shuffle_data(x, x, seed=3)


def p_concat():
    """Many sources for one input: their order must not depend on hashes."""
    L = bs.layers
    x = L.Input({'default': T + (2,), 'other': T + (1,), 'Z': T + (3,)})
    end = L.FullyConnected(3, 'tanh', name='end')
    for i, n in enumerate(['kappa', 'iota', 'theta', 'omega', 'Alpha', 'b1',
                           'b10', 'b2']):
        x >> L.FullyConnected(1 + i % 3, 'tanh', name=n) >> end
    x - 'Z' >> end
    x - 'other' >> end
    net = bs.Network.from_layer(x)
    net.initialize(ini.Gaussian(0.5))
    net.provide_external_data({k: gen(k, (2, 2, s)) for k, s in
                               (('default', 2), ('other', 1), ('Z', 3))})
    net.forward_pass()
    net.buffer.end.output_deltas.default[:] = 1.0
    net.backward_pass()
    return [net.get('parameters'), net.get('end.outputs.default'),
            net.get('gradients'), np.frombuffer(
                ','.join(net.layers).encode(), np.uint8)]


def p_losses():
    """Several losses, decays and shared sources."""
    L = bs.layers
    x = L.Input({'default': T + (3,), 't_b': T + (2,), 't_a': T + (2,)})
    h = L.FullyConnected(4, 'sigmoid', name='h')
    x >> h
    for n in ('a', 'b'):
        e = L.SquaredError(name='err_' + n)
        h >> L.FullyConnected(2, 'linear', name='out_' + n) >> e
        x - ('t_' + n) >> 'targets' - e
        e - 'loss' >> L.Loss(0.5, name='loss_' + n)
    h >> L.L2Decay(name='l2') - 'loss' >> L.Loss(0.1)
    h >> L.L1Decay(name='l1') - 'loss' >> L.Loss(0.2)
    net = bs.Network.from_layer(x)
    net.initialize(ini.Gaussian(0.5))
    net.provide_external_data({k: gen(k, (2, 3, s)) for k, s in
                               (('default', 3), ('t_a', 2), ('t_b', 2))})
    net.forward_pass(training_pass=True)
    net.backward_pass()
    ls = net.get_loss_values()
    return [net.get('parameters'), net.get('gradients'),
            np.array([ls[k] for k in sorted(ls)]),
            np.frombuffer(','.join(net.layers).encode(), np.uint8)]


def p_saved():
    net = classifier()
    net.initialize(ini.Gaussian(0.5))
    fd, path = tempfile.mkstemp('.hdf5')
    os.close(fd)
    try:
        net.save_as_hdf5(path)
        net2 = bs.Network.from_hdf5(path)
    finally:
        os.remove(path)
    out = [net2.get('parameters')]
    net2.provide_external_data(cdata())
    net2.forward_pass(training_pass=True)
    out += [net2.get('Dropout_1.outputs.default'),
            net2.get('out.outputs.predictions')]
    net2.initialize(ini.Uniform())
    return out + [net2.get('parameters')]


def p_handler():
    h = NumpyHandler(np.float32)
    out = []
    for _ in range(2):
        a, b = h.zeros((3, 5)), h.zeros((4, 2))
        h.fill_gaussian(0.5, 2.0, a)
        h.generate_probability_mask(b, 0.5)
        out += [a.copy(), b.copy()]
    return out


def p_states():
    a, b = RandomState(), bs.global_rnd.create_random_state()
    s = Seedable()
    out = [a.randint(1 << 30), b.randint(1 << 30), s.rnd.randint(1 << 30),
           a.generate_seed(), b.create_random_state().randint(1 << 30),
           bs.global_rnd.generate_seed()]
    return [np.array(out)]


class Noise(bs.value_modifiers.ValueModifier):
    def __init__(self, f=1.0):
        super(Noise, self).__init__()
        self.f = f

    def __call__(self, handler, view):
        v = handler.get_numpy_copy(view)
        v = v * self.f + self.rnd.uniform(-1, 1, size=v.shape)
        handler.set_from_numpy(view, v)


def p_modifiers():
    """Several patterns give one parameter modifiers that do not commute."""
    L, V = bs.layers, bs.value_modifiers
    x = L.Input({'default': T + (2,)})
    end = x >> L.FullyConnected(3, name='ab') >> L.Lstm(2, name='abc')
    out = []
    for which in ('weight', 'gradient'):
        net = bs.Network.from_layer(end)
        net.set_handler(NumpyHandler(np.float64))
        net.initialize(bs.initializers.Gaussian())
        getattr(net, 'set_%s_modifiers' % which)({
            'a*': {'W*': Noise(0.5), 'b*': [Noise(2.0), Noise(0.3)],
                   'default': Noise()},
            'ab': {'W': V.ClipValues(-0.4, 0.6), '*': V.ClipValues(0.1, 0.2),
                   'bias': Noise(-1.0)},
            '*b*': {'*': V.ConstrainL2Norm(0.5), 'b*': Noise(0.7),
                    'W*': V.ClipValues(-0.2, 2.0)},
            'abc': [Noise(-0.3), V.ClipValues(-1.0, 0.9)]})
        net.provide_external_data({'default': np.ones((2, 3, 2))})
        net.forward_pass(training_pass=True)
        net.backward_pass()
        for _ in range(2):
            net.apply_weight_modifiers()
        out += [net.get('parameters'), net.get('gradients')]
    return out


PROGRAMS = dict(
    modifiers=p_modifiers,
    initializers=p_initializers, dropout=p_dropout, minibatches=p_minibatches,
    iterators=p_iterators, train=p_train, train64=p_train64, spec=p_spec,
    shuffle=p_shuffle, concat=p_concat, losses=p_losses, saved=p_saved,
    handler=p_handler, states=p_states)


def run_program(name, seed):
    bs.global_rnd.set_seed(seed)
    return digest(PROGRAMS[name]())


def digest(arrays):
    h = hashlib.sha256()
    for a in arrays:
        a = np.ascontiguousarray(a)
        h.update(repr((a.shape, str(a.dtype))).encode())
        h.update(a.tobytes())
    return h.hexdigest()


def program(case, ctx):
    p = case['p']
    want = {s: run_program(p, s) for s in (1, 2)}
    check(want[1] != want[2], 'program {} does not depend on the global seed',
          p)
    for s in (1, 2, 1, 2):
        check(run_program(p, s) == want[s], 'program {} gave another result '
              'for the same global seed {}', p, s)
        ctx.step()
    for other in sorted(PROGRAMS):
        bs.global_rnd.set_seed(11)
        PROGRAMS[other]()
        check(run_program(p, 1) == want[1], 'program {} gave another result '
              'for the same global seed after program {}', p, other)
        ctx.step()
        ctx.state(p, other)
    saved = np.random.get_state()
    try:
        for k in (0, 1, 2):
            np.random.seed(k)
            random.seed(k)
            before = np.random.get_state()[1].copy()
            check(run_program(p, 2) == want[2], 'program {} depends on '
                  'something other than the global seed', p)
            check(np.array_equal(before, np.random.get_state()[1]),
                  'program {} draws from the random state of numpy', p)
            ctx.step()
            ctx.state(p, 'foreign', k)
    finally:
        np.random.set_state(saved)
    # from the state reached, not only from a fresh seed
    bs.global_rnd.set_seed(4)
    a = PROGRAMS[p](), PROGRAMS[p]()
    bs.global_rnd.set_seed(4)
    b = PROGRAMS[p](), PROGRAMS[p]()
    check(digest(a[0]) == digest(b[0]) and digest(a[1]) == digest(b[1]),
          'program {} run twice gave other results for the same seed', p)
    check(digest(a[0]) != digest(a[1]), 'program {} run twice gave the same '
          'result twice', p)
    ctx.trace()


def child():
    out = {}
    for p in sorted(PROGRAMS):
        for s in (1, 2):
            out['%s seed %d' % (p, s)] = run_program(p, s)
    print('RESULT ' + json.dumps(out, sort_keys=True))


def process(case, ctx):
    so = sys.modules['brainstorm.handlers._cpuop'].__file__
    res = []
    for hs in (0, case['hashseed']):
        env = worker_env(str(hs))
        r = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c', 'import sys; from vmc.core '
             'import load_module as l; l("C21", sys.argv[1]).child()', so],
            env=env, cwd=VERIF, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, timeout=300)
        txt = r.stdout.decode(errors='replace')
        check(r.returncode == 0 and 'RESULT ' in txt, 'the programs failed '
              'in another process: {}', r.stderr.decode(
                  errors='replace')[-1500:])
        res.append(json.loads(txt.split('RESULT ')[1].splitlines()[0]))
    for k in sorted(res[0]):
        check(res[0][k] == res[1][k], 'program {} gave another result in a '
              'process with hash seed {}', k, case['hashseed'])
        p, s = k.split(' seed ')
        check(res[0][k] == run_program(p, int(s)), 'program {} gave another '
              'result in another process', k)
        ctx.step(2)
        ctx.state(k, case['hashseed'])
    ctx.trace()


# --------------------------------------------------------- interleavings --

def c_handler():
    h = NumpyHandler(np.float64)
    a = h.zeros((2, 4))

    def op():
        h.generate_probability_mask(a, 0.5)
        b = a.copy()
        h.fill_gaussian(0, 1, a)
        return [b, a.copy()]
    return op, [h.rnd]


def c_init():
    net = bs.Network.from_layer(bs.layers.Input({'default': T + (2,)}) >>
                                bs.layers.FullyConnected(2))
    init = ini.Gaussian()

    def op():
        net.initialize(init)
        return [net.get('parameters')]
    return op, [net.rnd, net.handler.rnd, init.rnd]


def c_batches():
    it = di.Minibatches(1, True, default=gen('b', (1, 8, 1)))

    def op():
        return [np.array(b['default']) for b in it(None)]
    return op, [it.rnd]


def c_noise():
    und = di.Undivided(default=gen('b', (1, 3, 1)), x=gen('x', (1, 3, 1)))
    it = di.AddGaussianNoise(und, {'default': 1.0, 'x': 0.5})

    def op():
        return [b[k] for b in it(None) for k in ('default', 'x')]
    return op, [it.rnd, und.rnd]


def c_dropout():
    net = bs.Network.from_layer(bs.layers.Input({'default': T + (9,)}) >>
                                bs.layers.Dropout(0.5))
    net.provide_external_data({'default': np.ones((1, 2, 9))})

    def op():
        net.forward_pass(training_pass=True)
        return [net.get('Dropout.outputs.default')]
    return op, [net.rnd, net.handler.rnd]


def c_seeds():
    def op():
        return [np.array([bs.global_rnd.generate_seed(),
                          bs.global_rnd.randint(100)])]
    return op, []


COMPONENTS = dict(handler=c_handler, init=c_init, batches=c_batches,
                  noise=c_noise, dropout=c_dropout, seeds=c_seeds)


def interleave(case, ctx):
    group = case['group']
    bs.global_rnd.set_seed(1)
    comps = {c: COMPONENTS[c]() for c in group}
    rnds = [r for c in group for r in comps[c][1]]

    def reset():
        bs.global_rnd.set_seed(100)
        for i, r in enumerate(rnds):
            r.set_seed(i)
    alone = {}
    for c in group:
        reset()
        alone[c] = [digest(comps[c][0]()) for _ in range(2)]
        check(alone[c][0] != alone[c][1], 'component {} gave the same random '
              'values twice', c)
    for word in words(group):
        reset()
        count = {c: 0 for c in group}
        for c in word:
            d = digest(comps[c][0]())
            check(d == alone[c][count[c]], 'the random values of {} depend '
                  'on the other components in the order {}', c, word)
            count[c] += 1
        ctx.step(len(word))
        ctx.state(word)
    ctx.trace()


def words(group):
    out = []

    def rec(word, left):
        if not any(left.values()):
            out.append(tuple(word))
            return
        for c in group:
            if left[c]:
                left[c] -= 1
                rec(word + [c], left)
                left[c] += 1
    rec([], {c: 2 for c in group})
    return out


# -------------------------------------------------- explicit seeds, etc. --

def explicit(ctx):
    def init():
        net = classifier()
        out = []
        for s in (7, 8, 7):
            net.initialize({'default': ini.Gaussian(), 'rec': ini.Uniform()},
                           seed=s)
            out.append(net.get('parameters'))
        return out

    def hand():
        out = []
        for s in (7, 8, 7):
            h = NumpyHandler(np.float64, seed=s)
            a = h.zeros((4, 6))
            h.generate_probability_mask(a, 0.5)
            out.append(a.copy())
        return out

    def shuf():
        x = np.arange(40).reshape(1, 20, 2)
        return [bs.tools.shuffle_data(x, seed=s)[0] for s in (7, 8, 7)]

    def states():
        return [RandomState(s).rand(5) for s in (7, 8, 7)]

    def child_():
        return [bs.global_rnd.create_random_state(s).rand(5)
                for s in (7, 8, 7)]

    def seedable():
        return [Seedable(s).rnd.rand(5) for s in (7, 8, 7)]

    def iterator():
        out = []
        it = di.Minibatches(1, True, default=gen('i', (1, 9, 1)))
        for s in (7, 8, 7):
            it.rnd.set_seed(s)
            out.append(np.array([b['default'][0, 0, 0] for b in it(None)]))
        return out

    def zero():
        return [RandomState(s).rand(5) for s in (0, 8, 0)]

    def zeroinit():
        net = classifier()
        out = []
        for s in (0, 8, 0):
            net.initialize(ini.Gaussian(), seed=s)
            out.append(net.get('parameters'))
        return out

    def zerohand():
        out = []
        for s in (0, 8, 0):
            h = NumpyHandler(np.float64, seed=s)
            a = h.zeros((4, 6))
            h.fill_gaussian(0, 1, a)
            out.append(a.copy())
        return out

    def netrnd():
        net = classifier()
        out = []
        for s in (7, 8, 7):
            net.rnd.set_seed(s)
            net.initialize(ini.Gaussian())
            out.append(net.get('parameters'))
        return out
    for f in (init, hand, shuf, states, child_, seedable, iterator, netrnd,
              zero, zeroinit, zerohand):
        runs = []
        for g in (1, 2, 12345):
            bs.global_rnd.set_seed(g)
            out = f()
            check(np.array_equal(out[0], out[2]), '{}: another result for '
                  'the same explicit seed', f.__name__)
            check(not np.array_equal(out[0], out[1]), '{}: same result for '
                  'different explicit seeds', f.__name__)
            runs.append(digest(out))
            ctx.step(3)
        check(len(set(runs)) == 1, '{}: the result for an explicit seed '
              'depends on the global seed', f.__name__)
        ctx.state(f.__name__)
    # explicit seeds leave the global stream alone
    for f in (hand, shuf, states, child_, seedable):
        bs.global_rnd.set_seed(5)
        f()
        check(bs.global_rnd.randint(1 << 30) == untouched(5), '{}: explicit '
              'seeds use up the global stream', f.__name__)
        ctx.step()
    net = classifier()
    bs.global_rnd.set_seed(5)
    net.initialize(0.5, seed=3)
    check(net.rnd.get_seed() is not None, 'seed of a network')
    # the seed of an initialization does not disturb the network's stream
    outs = []
    for with_seed in (False, True):
        net.rnd.set_seed(3)
        if with_seed:
            net.initialize(ini.Gaussian(), seed=9)
        net.initialize(ini.Gaussian())
        outs.append(net.get('parameters'))
    check(np.array_equal(*outs), 'an initialization with a seed of its own '
          'changed the following ones')
    ctx.trace()


def independent(ctx):
    """No two components created under one seed share their stream."""
    L = bs.layers
    for g in range(8):
        bs.global_rnd.set_seed(g)
        nets = [classifier() for _ in range(2)]
        hs = [NumpyHandler(np.float64) for _ in range(2)]
        its = [di.Minibatches(1, True, default=gen('i', (1, 30, 1)))
               for _ in range(2)]
        noise = di.AddGaussianNoise(its[0], {'default': 1.0})
        inits = [ini.Gaussian(), ini.Gaussian()]
        mods = [Noise(), Noise()]
        rnds = [bs.global_rnd] + [o.rnd for o in nets + hs + its + [noise] +
                                  inits + mods] + \
            [n.handler.rnd for n in nets]
        streams = [tuple(copy.copy(r).randint(1 << 30, size=4).tolist())
                   for r in rnds]
        for (i, a), (j, b) in itertools.combinations(enumerate(streams), 2):
            check(rnds[i] is not rnds[j], 'components {} and {} share one '
                  'random state', i, j)
            check(a != b and not set(a) & set(b), 'components {} and {} have '
                  'the same random stream', i, j)
            ctx.step()
        # layers of one network get different values
        x = L.Input({'default': T + (8,)})
        net = bs.Network.from_layer(x >> L.FullyConnected(8, name='a') >>
                                    L.FullyConnected(8, name='b') >>
                                    L.Dropout(0.5, name='c') >>
                                    L.Dropout(0.5, name='d'))
        for init in (ini.Gaussian(), ini.Uniform(), ini.Orthogonal(),
                     ini.DenseSqrtFanIn(), ini.EchoState(), ini.RandomWalk(),
                     ini.SparseInputs(ini.Gaussian(), 3)):
            vals = []
            for k in range(2):
                net.initialize({'default': init, 'fallback': 0.0})
                vals += [net.get('a.parameters.W'),
                         net.get('b.parameters.W')]
            for p, q in itertools.combinations(vals, 2):
                check(not np.array_equal(p, q), '{} gave the same values to '
                      'two layers or twice', type(init).__name__)
                ctx.step()
        net.initialize(1.0)
        net.provide_external_data({'default': np.ones((4, 9, 8))})
        masks = []
        for k in range(3):
            net.forward_pass(training_pass=True)
            masks += [net.get(l + '.outputs.default') for l in 'cd']
        for p, q in itertools.combinations(masks, 2):
            check(not np.array_equal(p, q), 'two dropout masks agree')
            ctx.step()
        net.set_weight_modifiers({'a': Noise(), 'b': Noise()})
        net.initialize(0.0)
        net.apply_weight_modifiers()
        check(not np.array_equal(net.get('a.parameters.W'),
                                 net.get('b.parameters.W')),
              'two weight modifiers drew the same values')
        orders = [[b['default'][0, 0, 0] for b in its[i](None)]
                  for i in (0, 1, 0, 1)]
        for p, q in itertools.combinations(orders, 2):
            check(p != q, 'two passes have the same order')
            check(sorted(p) == sorted(q), 'a pass is not a permutation')
        ctx.state(g)
    ctx.trace()


def run(case, ctx):
    k = case['k']
    if k in ('explicit', 'independent'):
        globals()[k](ctx)
    else:
        globals()[k](case, ctx)
