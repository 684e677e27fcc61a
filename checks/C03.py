"""Recurrent layers follow their recurrence and resume exactly."""
import copy
import itertools

import numpy as np

import brainstorm as bs
from brainstorm import layers as bl
from brainstorm.handlers import NumpyHandler
from checks.specs import ACTS, Builder, O
from vmc import ref
from vmc.core import Violation, check
from vmc.grad import compare_forward, input_data, lift, nested
from vmc.nets import (expect_close, find_order, generic_params, make_net,
                      set_params)

BOUNDS = {
    'quick': '4 recurrent layer types x 5 activations x sizes 1-3 (and 11) x '
             'T<=6 (and 15) x B<=3 (and 8) x feature shapes, training and '
             'evaluation; timings in {1,2,3,5}^2 (clockwork); all 2^(T-1) '
             'split sets of sequences of length <=6 for 14 network shapes; '
             'all context-choice histories (start fresh or from any earlier '
             'context, 2 chunks, then nothing, a backward pass, a training pass '
             'or an unrelated pass of another size) of depth '
             '<=3'
             '; every T, B, layer size and input size from 4 to 40 and '
             'around 64, 100 and 128',
    'thorough': 'as quick with T<=9, split sets of length <=8, timings in '
                '{1..6}^3, histories of depth <=4',
}
TYPES = ['Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm']


LONG = list(range(4, 41)) + [63, 64, 65, 100, 127, 128, 129]


def chain(items, fs):
    b = Builder(x=fs)
    src = O('Input', 'x')
    for i, (typ, kw) in enumerate(items):
        src = b.add('l%d' % i, typ, src, **kw)
    return b.spec()


def shapes():
    """networks whose sequences are split"""
    out = []
    for t in TYPES:
        out.append(chain([(t, dict(size=2))], [2]))
    for a, c in itertools.product(('Recurrent', 'Lstm'), repeat=2):
        out.append(chain([(a, dict(size=2)), (c, dict(size=3))], [2]))
    out.append(chain([('Lstm', dict(size=2)),
                      ('FullyConnected', dict(size=3, activation='tanh')),
                      ('Recurrent', dict(size=2))], [3]))
    out.append(chain([('Clockwork', dict(size=2)),
                      ('ClockworkLstm', dict(size=2))], [2]))
    # input concatenated with a recurrent layer's output (shared hub)
    for t in TYPES:
        b = Builder(x=[2])
        o = b.add('a', t, O('Input', 'x'), size=2)
        b.add('b', 'Recurrent', [O('Input', 'x'), o], size=2)
        out.append(b.spec())
    # two recurrent layers side by side feeding one input
    b = Builder(x=[2])
    o1 = b.add('a', 'Lstm', O('Input', 'x'), size=2)
    o2 = b.add('b', 'Recurrent', O('Input', 'x'), size=3)
    b.add('c', 'Lstm', [o1, o2], size=2)
    out.append(b.spec())
    return out


SHAPES = shapes()


def lcm_timing(spec):
    return 2 if any(t.startswith('Clock') for _, t, _, _ in spec) else 1


def cases(tier):
    th = tier == 'thorough'
    for typ in TYPES:
        for act in ACTS:
            for size in (1, 2, 3):
                for T in range(1, 10 if th else 7):
                    for B in (1, 2, 3):
                        yield dict(k='fwd', typ=typ, kw=dict(
                            size=size, activation=act), T=T, B=B, fs=[2])
            yield dict(k='fwd', typ=typ, kw=dict(size=11, activation=act),
                       T=15, B=8, fs=[13])
        for n in LONG:
            for T, B, size, fs in [(n, 2, 2, 2), (3, n, 2, 2), (3, 2, n, 2),
                                   (3, 2, 2, n)]:
                yield dict(k='fwd', typ=typ, kw=dict(size=size), T=T, B=B,
                           fs=[fs])
        for fs in ([1], [2, 3], [2, 2, 2], [20]):
            for T in (1, 4):
                yield dict(k='fwd', typ=typ, kw=dict(size=2), T=T, B=2,
                           fs=fs)
        yield dict(k='fwd', typ=typ, kw={}, T=3, B=2, fs=[3])
        for T in (1, 2, 5):
            yield dict(k='wrap', typ=typ, T=T)
        if typ.startswith('Clock'):
            tt = (1, 2, 3, 4, 5, 6) if th else (1, 2, 3, 5)
            for timing in itertools.product(tt, repeat=3 if th else 2):
                yield dict(k='fwd', typ=typ, kw=dict(size=len(timing)), T=11,
                           B=2, fs=[2], timing=timing)
            yield dict(k='fwd', typ=typ, kw=dict(size=6), T=25, B=2, fs=[2],
                       timing=(1, 4, 7, 12, 24, 30))
    for i in range(len(SHAPES)):
        for T in range(2, 9 if th else 7):
            for bits in range(2 ** (T - 1)):
                yield dict(k='split', i=i, T=T, bits=bits)
    for i in range(len(SHAPES)):
        for depth in range(1, 5 if th else 4):
            # every op: (context choice, chunk, mode); contexts: 0 = fresh,
            # j = the context after op j
            for c in itertools.product(*[range(d + 1) for d in range(depth)]):
                if th and depth == 4 and i not in (0, 1, 3, 8, 10, 14):
                    continue
                for m in itertools.product(range(4), repeat=depth):
                    yield dict(k='hist', i=i, ctx=c, modes=m)


def run(case, ctx):
    k = case['k']
    if k in ('fwd', 'wrap'):
        T, B = case['T'], case.get('B', 2)
        typ = case['typ']
        b = Builder(x=case.get('fs', [3]))
        kw = case.get('kw', dict(size=2))
        if k == 'fwd':
            if 'size' not in kw:
                b.layers.append(['l', typ, {}, {'default': [O('Input',
                                                              'x')]}])
            else:
                b.add('l', typ, O('Input', 'x'), **kw)
            spec = b.spec()
            net = make_net(spec)
        else:
            b.add('l', typ, O('Input', 'x'), size=2, activation='tanh')
            spec = b.spec()
            net = bs.Network.from_layer(
                bl.Input(out_shapes={'x': ('T', 'B', 3)}) - 'x' >>
                getattr(bl, typ)(2, name='l'))
            net.set_handler(NumpyHandler(np.float64))
        params = generic_params(net, 'c03', case.get('timing', (1., 2., 3.)))
        set_params(net, params)
        data = input_data(spec, T, B, 'c03')
        res = ref.evaluate(spec, lift(nested(params)),
                           {a: v[None] for a, v in data.items()})
        for tr in (True, False):
            net.provide_external_data(data)
            net.forward_pass(training_pass=tr)
            compare_forward(net, spec, res)
            ctx.trace()
            ctx.step(T)
        ctx.state(case)
        ctx.outcome(float(res['vals']['l', 'outputs.default'].sum()))
        return
    spec = SHAPES[case['i']]
    net = make_net(spec)
    step = lcm_timing(spec)
    params = generic_params(net, 'c03', (1., 2.))
    set_params(net, params)
    P = lift(nested(params))
    names = [n for n, t, _, _ in spec if t != 'Input']
    if k == 'split':
        T, B = case['T'] * step, 2
        data = input_data(spec, T, B, 'split')
        net.provide_external_data(data)
        net.forward_pass()
        res = ref.evaluate(spec, P, {a: v[None] for a, v in data.items()},
                           False, None, find_order(net, spec))
        compare_forward(net, spec, res)
        whole = {n: net.get(n + '.outputs.default')[:T] for n in names}
        cuts = [0] + [step * (i + 1) for i in range(case['T'] - 1)
                      if case['bits'] >> i & 1] + [T]
        c, snaps = None, []
        for a, e in zip(cuts, cuts[1:]):
            net.provide_external_data({n: v[a:e] for n, v in data.items()})
            net.forward_pass(context=c)
            for n in names:
                got = net.get(n + '.outputs.default')[:e - a]
                expect_close(got, whole[n][a:e], 'outputs of %s for steps '
                             '%d..%d of the split sequence' % (n, a, e))
            c = net.get_context()
            snaps.append((c, freeze(c)))
            ctx.step()
        for c, f in snaps:
            check(same(freeze(c), f), 'a context changed after it was taken')
        ctx.trace()
        ctx.state(case)
        return
    # histories over a tree of contexts
    chunks = [input_data(spec, 1 * step, 2, 'A'),
              input_data(spec, 3 * step, 2, 'B')]
    order = None
    contexts = [(None, None, None)]      # real, ref, frozen copy
    for n, (c, mode) in enumerate(zip(case['ctx'], case['modes'])):
        chunk = chunks[(n + c) % 2]
        real, rctx, _ = contexts[c]
        net.provide_external_data(chunk)
        net.forward_pass(training_pass=mode == 2, context=real)
        if order is None:
            order = find_order(net, spec)
        res = ref.evaluate(spec, P, {a: v[None] for a, v in chunk.items()},
                           True, rctx, order)
        compare_forward(net, spec, res)
        new = net.get_context()
        contexts.append((new, res['context'], freeze(new)))
        if mode == 1:
            net.backward_pass()
        if mode == 3:            # an unrelated pass of another size
            net.provide_external_data(input_data(spec, 5, 3, 'other'))
            net.forward_pass(training_pass=True)
            net.backward_pass()
        ctx.step()
        for real, _, fr in contexts[1:]:
            check(same(freeze(real), fr), 'a context changed after it was '
                  'taken')
        ctx.state(case['i'], case['ctx'][:n + 1], case['modes'][:n + 1])
    ctx.trace()


def freeze(c):
    if isinstance(c, dict):
        return {k: freeze(v) for k, v in c.items()}
    if isinstance(c, (list, tuple)):
        return [freeze(v) for v in c]
    return None if c is None else np.array(c, copy=True)


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return np.array_equal(a, b)
