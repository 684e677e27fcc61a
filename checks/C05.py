"""Results do not depend on history, batch neighbours or the future."""
import itertools

import numpy as np

from brainstorm.handlers import NumpyHandler
from checks.specs import UNARY, Builder, O
from vmc.core import Violation, check
from vmc.grad import input_data
from vmc.nets import (expect_close, generic_params, get_params, make_net,
                      set_params)

BOUNDS = {
    'quick': '27 networks (every layer type, two-input layers, losses, image '
             'stacks, concatenations sharing memory with recurrent layers, '
             'parameter losses); all operation histories of depth <=2 over '
             '24 operations (3 sizes x 7 pass modes incl. repeated backward, '
             'passes with context, NaN data; handler switch, float32 switch, '
             'partial data) plus one walk per network containing every '
             'triple of 10 operations; all sub-batches and orders of 3 sequences; '
             'all truncations of 5 time steps',
    'thorough': 'as quick with all histories of depth 3 (later operations '
                'from 9) and walks containing '
                'all length-4 words over the 10 operations',
}

SIZES = [(1, 1), (2, 3), (5, 2)]
MODES = ['e', 'eb', 't', 'tb', 'tbb', 'ctb', 'nan']


def nets():
    out = []
    for typ, kw in UNARY:
        if typ == 'Dropout':
            continue
        b = Builder(x=[2])
        o = b.add('l0', typ, O('Input', 'x'), **kw)
        o = b.add('l1', 'FullyConnected', o, size=2, activation='tanh')
        b.loss('loss', o)
        out.append(b.spec())
    for typ in ('SigmoidCE', 'SoftmaxCE', 'SquaredError',
                'BinomialCrossEntropy'):
        b = Builder(x=[2])
        o = b.add('l0', 'FullyConnected', O('Input', 'x'), size=3,
                  activation='sigmoid')
        o = b.add('l1', typ, o)
        b.loss('loss', o, weighted=False)
        out.append(b.spec())
    b = Builder(x=[4, 4, 1])
    o = b.add('c', 'Convolution2D', O('Input', 'x'), num_filters=2,
              kernel_size=[3, 2], padding=1, activation='tanh')
    o = b.add('p', 'Pooling2D', o, type='max', kernel_size=[2, 2],
              stride=[2, 2])
    b.loss('loss', o)
    out.append(b.spec())
    b = Builder(x=[3, 3, 2])
    o = b.add('p', 'Pooling2D', O('Input', 'x'), type='avg',
              kernel_size=[2, 2], padding=1)
    o = b.add('bn', 'BatchNorm', o)
    b.loss('loss', o)
    out.append(b.spec())
    b = Builder(x=[2], y=[2])
    a = b.add('a', 'FullyConnected', O('Input', 'x'), size=2,
              activation='tanh')
    c = b.add('c', 'Recurrent', O('Input', 'y'), size=2)
    b.layers.append(['hw', 'Highway', {}, {'H': [a], 'T': [c],
                                           'x': [O('Input', 'x')]}])
    b.layers.append(['mg', 'Merge', {}, {'inputs_1': [O('hw')],
                                         'inputs_2': [c]}])
    b.shape['mg', 'default'] = [4]
    b.shape['hw', 'default'] = [2]
    b.layers.append(['sd', 'SquaredDifference', {}, {
        'inputs_1': [O('hw')], 'inputs_2': [a]}])
    b.shape['sd', 'default'] = [2]
    b.loss('loss', O('mg'))
    b.loss('loss2', O('sd'), 0.5)
    out.append(b.spec())
    for t in ('Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm'):
        b = Builder(x=[2])
        a = b.add('a', t, O('Input', 'x'), size=2)
        c = b.add('c', 'FullyConnected', [O('Input', 'x'), a], size=2)
        d = b.add('d', 'Lstm', [a, c], size=2)
        b.loss('loss', d)
        b.loss('loss2', a)
        out.append(b.spec())
    for t in ('FullyConnected', 'Lstm'):
        b = Builder(x=[2])
        a = b.add('a', t, O('Input', 'x'), size=2)
        b.loss('loss', a)
        b.layers.append(['pl', 'Loss', {}, {'default': [
            ['a', 'parameters.' + ('W' if t == 'FullyConnected' else 'Rz')]
        ]}])
        out.append(b.spec())
    # an output nobody reads, a branch without loss
    b = Builder(x=[2], y=[3])
    a = b.add('a', 'FullyConnected', O('Input', 'x'), size=3)
    b.add('dead', 'Lstm', O('Input', 'y'), size=2)
    b.loss('loss', a)
    out.append(b.spec())
    return out


NETS = nets()
OPS = [(m, s) for s in range(len(SIZES)) for m in MODES] + \
    [('handler', 0), ('float32', 0), ('partial', 1)]
OPS3 = [(m, s) for s in range(3) for m in ('e', 'tb')] + \
    [('ctb', 1), ('nan', 2), ('handler', 0)]


def cases(tier):
    th = tier == 'thorough'
    for i in range(len(NETS)):
        for a in range(len(OPS)):
            yield dict(k='hist', i=i, first=a, depth=3 if th else 2)
        yield dict(k='walk', i=i, order=4 if th else 3)
        yield dict(k='batch', i=i)
        yield dict(k='future', i=i)


def debruijn(k, n):
    """cyclic sequence over range(k) containing every word of length n"""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


class Subject(object):
    def __init__(self, i):
        self.spec = NETS[i]
        self.net = make_net(self.spec)
        self.params = generic_params(self.net, 'c05')
        set_params(self.net, self.params)
        self.bn = any(t == 'BatchNorm' for _, t, _, _ in self.spec)


def observe(net, spec, backward):
    out = {}
    for l, typ, kw, ins in spec:
        view = net.buffer[l]
        for cat in ('outputs',) + (('gradients', 'input_deltas') if backward
                                   else ()):
            if cat not in view or view[cat] is None:
                continue
            for n in view[cat].keys():
                v = net.get('%s.%s.%s' % (l, cat, n))
                if cat == 'outputs' and v.ndim >= 3:
                    t = net.get('Input.outputs.' + next(
                        iter(spec[0][2]['out_shapes']))).shape[0]
                    v = v[:t]
                out[l, cat, n] = v
    for n in spec[0][2]['out_shapes']:
        if backward:
            out['Input', 'output_deltas', n] = net.get(
                'Input.output_deltas.' + n)
    for k, v in net.get_loss_values().items():
        out['losses', k] = v
    if backward:
        out['gradients'] = net.get('gradients')
    return out


def do_pass(net, spec, op, data_key='data'):
    """Execute one operation; returns an observation or None."""
    mode, s = op
    T, B = SIZES[s]
    if mode == 'handler':
        net.set_handler(NumpyHandler(np.float64))
        return None
    if mode == 'float32':
        net.set_handler(NumpyHandler(np.float32))
        net.set_handler(NumpyHandler(np.float64))
        return None
    data = input_data(spec, T, B, (data_key, s))
    if mode == 'partial':
        name = sorted(data)[0]
        net.provide_external_data({name: data[name]}, all_inputs=False)
        net.forward_pass()
        return None
    if mode == 'nan':
        for k in data:
            if not k.startswith('cls'):
                data[k] = data[k] * np.nan
        net.provide_external_data(data)
        net.forward_pass()
        net.backward_pass()
        return None
    context = None
    if mode == 'ctb':
        net.provide_external_data(input_data(spec, 2, B, 'ctx'))
        net.forward_pass()
        context = net.get_context()
    net.provide_external_data(data)
    net.forward_pass(training_pass=mode[0] != 'e', context=context)
    for _ in range(mode.count('b')):
        net.backward_pass()
    # a backward pass belongs to a training-mode forward pass
    return observe(net, spec, 'b' in mode and mode[0] != 'e')


def compare(got, exp, what):
    check(set(got) == set(exp), '{}: buffers differ', what)
    for k in exp:
        expect_close(got[k], exp[k], '%s: %s' % (what, '.'.join(k) if
                     isinstance(k, tuple) else k), 1e-11)


def run_ops(subj, ops, fresh, ctx, label):
    net, spec = subj.net, subj.spec
    for n, op in enumerate(ops):
        before = get_params(net)
        got = do_pass(net, spec, op)
        if op[0] == 'float32':
            # values survive up to the precision of the smaller type
            for k, v in get_params(net).items():
                expect_close(v, before[k], 'parameter %s.%s after handler '
                             'switches' % k, 1e-6)
            set_params(net, before)
            continue
        if not (subj.bn and op[0] in ('t', 'tb', 'tbb', 'ctb')):
            for k, v in get_params(net).items():
                check(np.array_equal(v, before[k]), 'parameter {}.{} changed '
                      'by operation {} after {}', k[0], k[1], op, ops[:n])
        if got is not None:
            if subj.bn:
                s2 = make_net(spec)
                set_params(s2, before)
                exp = do_pass(s2, spec, op)
                for k, v in get_params(s2).items():
                    expect_close(get_params(net)[k], v, 'parameter %s.%s '
                                 'after %r' % (k + (ops[:n + 1],)), 1e-11)
            else:
                if op not in fresh:
                    s2 = make_net(spec)
                    set_params(s2, subj.params)
                    fresh[op] = do_pass(s2, spec, op)
                exp = fresh[op]
            compare(got, exp, 'operation %r after %s %r' %
                    (op, label, ops[max(0, n - 4):n]))
            ctx.step()


def run(case, ctx):
    i = case['i']
    k = case['k']
    if k == 'hist':
        fresh = {}
        for rest in itertools.product(OPS if case['depth'] == 2 else OPS3,
                                      repeat=case['depth'] - 1):
            ops = (OPS[case['first']],) + rest
            run_ops(Subject(i), ops, fresh, ctx, 'history')
            ctx.trace()
            ctx.state(i, ops)
        ctx.outcome(i, sorted(map(repr, fresh)))
    elif k == 'walk':
        ops = [(m, s) for s in range(3) for m in ('e', 'tb')] + \
            [('ctb', 1), ('nan', 2), ('handler', 0), ('partial', 1)]
        seq = [ops[j] for j in debruijn(len(ops), case['order'])]
        run_ops(Subject(i), seq, {}, ctx, 'walk')
        ctx.trace()
        ctx.state(i, 'walk')
    elif k == 'batch':
        subj = Subject(i)
        net, spec = subj.net, subj.spec
        data = input_data(spec, 3, 3, 'batch')
        full = evaluate(net, spec, data)
        for r in (1, 2, 3):
            for sel in itertools.permutations(range(3), r):
                sel = list(sel)
                sub = {n: np.ascontiguousarray(v[:, sel])
                       for n, v in data.items()}
                got = evaluate(net, spec, sub)
                for n, v in full.items():
                    expect_close(got[n], v[:, sel], 'output %s of sequences '
                                 '%r evaluated without the others' %
                                 (n, sel), 1e-11)
                ctx.step()
                ctx.state(i, 'batch', sel)
        big = {n: np.concatenate([v] * 7, 1) for n, v in data.items()}
        got = evaluate(net, spec, big)
        for n, v in full.items():
            expect_close(got[n], np.concatenate([v] * 7, 1),
                         'output %s in a batch of 21' % n, 1e-11)
        ctx.trace()
    else:
        subj = Subject(i)
        net, spec = subj.net, subj.spec
        data = input_data(spec, 5, 2, 'future')
        full = evaluate(net, spec, data)
        for t in range(1, 5):
            got = evaluate(net, spec, {n: v[:t] for n, v in data.items()})
            for n, v in full.items():
                expect_close(got[n], v[:t], 'output %s of the first %d steps'
                             % (n, t), 1e-11)
            other = {}
            for n, v in data.items():
                v = v.copy()
                v[t:] = v[t:][::-1, ::-1] if n.startswith('cls') else \
                    1.0 - v[t:]
                other[n] = v
            got = evaluate(net, spec, other)
            for n, v in full.items():
                expect_close(got[n][:t], v[:t], 'output %s of the first %d '
                             'steps when later steps change' % (n, t), 1e-11)
            ctx.step(2)
            ctx.state(i, 'future', t)
        ctx.trace()


def evaluate(net, spec, data):
    net.provide_external_data(data)
    net.forward_pass(training_pass=False)
    T = next(iter(data.values())).shape[0]
    out = {}
    for l, typ, kw, ins in spec:
        if typ in ('Input', 'Loss'):
            continue
        for n in net.buffer[l].outputs.keys():
            v = net.get('%s.outputs.%s' % (l, n))
            if v.ndim >= 3:
                out[l + '.' + n] = v[:T]
    return out
