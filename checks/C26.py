"""Components written by a user work exactly like the built-in ones."""
import contextlib
import io
import itertools
import json
import os
import shutil
import tempfile
from collections import OrderedDict

import numpy as np

import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import initializers as ini
from brainstorm import layers as BL
from brainstorm import scorers as sc
from brainstorm import value_modifiers as vm
from brainstorm.data_iterators import DataIterator, Minibatches
from brainstorm.describable import (Describable, create_from_description,
                                    get_description)
from brainstorm.handlers import DebugHandler, NumpyHandler
from brainstorm.layers.base_layer import Layer
from brainstorm.structure.buffer_structure import (BufferStructure,
                                                   StructureTemplate)
from brainstorm.structure.construction import ConstructionWrapper
from brainstorm.training import Trainer
from brainstorm.training import schedules as sch
from brainstorm.training import steppers as st
from brainstorm.utils import StructureValidationError, LayerValidationError
from checks import C07, C24
from checks.specs import Builder, O
from vmc.core import Violation, check
from vmc.grad import input_data
from vmc.nets import architecture, gen, generic_params, make_net, set_params

BOUNDS = {
    'quick': 'a layer declaring all single outputs / parameters / internals '
             'and all pairs of internals out of 9 buffer structures (3 types, '
             'contexts 0-3, also backward-only) through 5 sizes, every cell '
             'tagged; user-written recurrent layers with contexts 0-3 alone, '
             'in series and all pairs / triples concatenated, mixed with '
             'Lstm and Recurrent, all splits of 5 steps; all chains of <=3 '
             'of 6 user-written layers of all buffer types against numeric '
             'derivatives; all structure declarations of <=4 dimensions over '
             '6 entries x all templates; a subclass of every layer of 203 '
             'networks and of every option set of 36 classes (about 700 '
             'objects); own initializer, modifiers, scorer, hooks, stepper, '
             'iterator, schedule and handler in all 4096 combinations with '
             'built-in ones, and subclasses of the built-in ones in all pairs',
    'thorough': 'as quick with chains of <=4 layers, all triples of '
                'internals and splits of 6 steps',
}

# ------------------------------ user classes -------------------------------


class ToyLayerImpl(Layer):
    """Declares whatever buffers its arguments say."""
    expected_inputs = {'default': StructureTemplate('...')}
    expected_kwargs = {'outs', 'params', 'internals'}

    def setup(self, kwargs, in_shapes):
        res = []
        for key in ('outs', 'params', 'internals'):
            d = OrderedDict()
            for name, shape, ctx, bwd in kwargs.get(key, []):
                d[name] = BufferStructure(*shape, context_size=ctx,
                                          is_backward_only=bwd)
            res.append(d)
        return tuple(res)


class TwoInToyLayerImpl(ToyLayerImpl):
    expected_inputs = {'default': StructureTemplate('...'),
                       'other': StructureTemplate('...')}


class RecallLayerImpl(Layer):
    """y[t] = x[t] + sum_k w^k y[t-k] for k up to the context size; kept in
    the output or in an internal buffer."""
    expected_inputs = {'default': StructureTemplate('T', 'B', 'F')}
    expected_kwargs = {'ctx', 'store', 'w'}

    def setup(self, kwargs, in_shapes):
        self.c = kwargs.get('ctx', 1)
        self.w = kwargs.get('w', 0.5)
        self.store = kwargs.get('store', 'out')
        n = in_shapes['default'].feature_size
        outs, internals = OrderedDict(), OrderedDict()
        o = self.c if self.store == 'out' else 0
        outs['default'] = BufferStructure('T', 'B', n, context_size=o)
        if self.store == 'int':
            internals['h'] = BufferStructure('T', 'B', n, context_size=self.c)
            internals['dh'] = BufferStructure('T', 'B', n,
                                              context_size=self.c,
                                              is_backward_only=True)
        return outs, OrderedDict(), internals

    def forward_pass(self, buffers, training_pass=True):
        h = self.handler
        x = buffers.inputs.default
        y = buffers.outputs.default
        s = y if self.store == 'out' else buffers.internals.h
        for t in range(x.shape[0]):
            h.copy_to(x[t], s[t])
            for k in range(1, self.c + 1):
                h.mult_add_st(self.w ** k, s[t - k], s[t])
            if s is not y:
                h.copy_to(s[t], y[t])

    def backward_pass(self, buffers):
        h = self.handler
        dx = buffers.input_deltas.default
        dy = buffers.output_deltas.default
        d = dy if self.store == 'out' else buffers.internals.dh
        for t in range(dx.shape[0] - 1, -1, -1):
            if d is not dy:
                h.add_tt(dy[t], d[t], d[t])
            for k in range(1, self.c + 1):
                if t >= k:
                    h.mult_add_st(self.w ** k, d[t], d[t - k])
            h.add_tt(d[t], dx[t], dx[t])


class OwnDenseLayerImpl(Layer):
    expected_inputs = {'default': StructureTemplate('T', 'B', 'F')}
    expected_kwargs = {'size'}

    def setup(self, kwargs, in_shapes):
        n, m = kwargs['size'], in_shapes['default'].feature_size
        p = OrderedDict()
        p['W'] = BufferStructure(n, m)
        p['bias'] = BufferStructure(n)
        return (OrderedDict(default=BufferStructure('T', 'B', n)), p,
                OrderedDict())

    def forward_pass(self, buffers, training_pass=True):
        h = self.handler
        x, y = buffers.inputs.default, buffers.outputs.default
        W, b = buffers.parameters
        for t in range(x.shape[0]):
            h.dot_mm(x[t], W, y[t], transb=True)
            h.add_mv(y[t], b.reshape((1, b.shape[0])), y[t])

    def backward_pass(self, buffers):
        h = self.handler
        x, dx = buffers.inputs.default, buffers.input_deltas.default
        dy = buffers.output_deltas.default
        dW, db = buffers.gradients
        tmp = h.allocate(db.shape)
        for t in range(x.shape[0]):
            h.dot_add_mm(dy[t], buffers.parameters.W, dx[t])
            h.dot_add_mm(dy[t], x[t], dW, transa=True)
            h.sum_t(dy[t], 0, tmp)
            h.add_tt(db, tmp, db)


class OwnDense3LayerImpl(OwnDenseLayerImpl):
    """the same for batch sized buffers"""
    expected_inputs = {'default': StructureTemplate('B', 'F')}

    def setup(self, kwargs, in_shapes):
        n, m = kwargs['size'], in_shapes['default'].feature_size
        p = OrderedDict()
        p['W'] = BufferStructure(n, m)
        p['bias'] = BufferStructure(n)
        return OrderedDict(default=BufferStructure('B', n)), p, OrderedDict()

    def forward_pass(self, buffers, training_pass=True):
        h = self.handler
        W, b = buffers.parameters
        y = buffers.outputs.default
        h.dot_mm(buffers.inputs.default, W, y, transb=True)
        h.add_mv(y, b.reshape((1, b.shape[0])), y)

    def backward_pass(self, buffers):
        h = self.handler
        dy = buffers.output_deltas.default
        dW, db = buffers.gradients
        h.dot_add_mm(dy, buffers.parameters.W, buffers.input_deltas.default)
        h.dot_add_mm(dy, buffers.inputs.default, dW, transa=True)
        tmp = h.allocate(db.shape)
        h.sum_t(dy, 0, tmp)
        h.add_tt(db, tmp, db)


class LastStepLayerImpl(Layer):
    """(T, B, F) -> (B, F)"""
    expected_inputs = {'default': StructureTemplate('T', 'B', 'F')}

    def setup(self, kwargs, in_shapes):
        n = in_shapes['default'].feature_size
        return (OrderedDict(default=BufferStructure('B', n)), OrderedDict(),
                OrderedDict())

    def forward_pass(self, buffers, training_pass=True):
        x = buffers.inputs.default
        self.handler.copy_to(x[x.shape[0] - 1], buffers.outputs.default)

    def backward_pass(self, buffers):
        dx = buffers.input_deltas.default
        d = dx[dx.shape[0] - 1]
        self.handler.add_tt(buffers.output_deltas.default, d, d)


class RepeatLayerImpl(Layer):
    """(B, F) -> (T, B, F) with a second output holding the square"""
    expected_inputs = {'default': StructureTemplate('B', 'F')}

    def setup(self, kwargs, in_shapes):
        n = in_shapes['default'].feature_size
        outs = OrderedDict()
        outs['square'] = BufferStructure('B', n)
        outs['default'] = BufferStructure('T', 'B', n)
        return outs, OrderedDict(), OrderedDict()

    def forward_pass(self, buffers, training_pass=True):
        h, x = self.handler, buffers.inputs.default
        y = buffers.outputs.default
        for t in range(y.shape[0]):
            h.copy_to(x, y[t])
        h.mult_tt(x, x, buffers.outputs.square)

    def backward_pass(self, buffers):
        h, dx = self.handler, buffers.input_deltas.default
        dy = buffers.output_deltas.default
        for t in range(dy.shape[0]):
            h.add_tt(dy[t], dx, dx)
        tmp = h.allocate(dx.shape)
        h.mult_tt(buffers.output_deltas.square, buffers.inputs.default, tmp)
        h.mult_add_st(2.0, tmp, dx)


class OwnSquareLayerImpl(Layer):
    """works on every kind of input, like examples/custom_layer.py"""
    expected_inputs = {'default': StructureTemplate('...')}
    expected_kwargs = {}

    def setup(self, kwargs, in_shapes):
        return in_shapes, OrderedDict(), OrderedDict()

    def forward_pass(self, buffers, training_pass=True):
        x = buffers.inputs.default
        self.handler.mult_tt(x, x, buffers.outputs.default)
        self.handler.mult_st(0.5, buffers.outputs.default,
                             buffers.outputs.default)

    def backward_pass(self, buffers):
        self.handler.mult_add_tt(buffers.inputs.default,
                                 buffers.output_deltas.default,
                                 buffers.input_deltas.default)


class PoolAllLayerImpl(Layer):
    """mean over everything as a constant size buffer, plus a parameter"""
    expected_inputs = {'default': StructureTemplate('...')}

    def setup(self, kwargs, in_shapes):
        p = OrderedDict(shift=BufferStructure(1, 2))
        return (OrderedDict(default=BufferStructure(2)), p, OrderedDict())

    def forward_pass(self, buffers, training_pass=True):
        h, x = self.handler, buffers.inputs.default
        y = buffers.outputs.default
        h.sum_t(x, None, y[0:1].reshape(tuple()))
        h.sum_t(x, None, y[1:2].reshape(tuple()))
        h.mult_tt(y[0:1], y[0:1], y[0:1])
        s = buffers.parameters.shift.reshape((2,))
        h.add_tt(y, s, y)

    def backward_pass(self, buffers):
        h, x = self.handler, buffers.inputs.default
        dy = h.get_numpy_copy(buffers.output_deltas.default)
        tot = float(h.get_numpy_copy(x).sum())
        g = buffers.gradients.shift.reshape((2,))
        h.add_tt(buffers.output_deltas.default, g, g)
        dx = buffers.input_deltas.default
        h.add_st(float(dy[0] * 2 * tot + dy[1]), dx, dx)


# ------------------------------- structures --------------------------------

TB, B1, C0 = ['T', 'B'], ['B'], []
MENU = [(TB + [2], 0), (TB + [1], 1), (TB + [2], 2), (TB + [1, 2], 3),
        (B1 + [3], 0), (B1 + [2, 2], 0), (C0 + [2], 0), (C0 + [2, 2], 0),
        (C0 + [1, 1, 3], 0)]
PMENU = [(C0 + [3], 0), (C0 + [2, 2], 0), (C0 + [1, 2, 2], 0)]
SIZES = [(1, 1), (2, 3), (4, 2), (1, 5), (3, 1)]


def struct_cases(th):
    every = range(len(MENU))
    outs = [[]] + [[i] for i in every] + [list(p) for p in
                                          itertools.product(every, repeat=2)]
    params = [[], [0], [1], [2], [0, 1], [1, 0], [2, 2], [1, 2, 0]]
    ints = [(i, b) for i in every for b in (0, 1)]
    pairs = [[list(a), list(b)] for a in ints for b in ints]
    for o in outs:
        for p in (params[:4] if len(o) == 2 else params):
            yield o, p, []
    for o in outs[:len(MENU) + 1]:
        for i in ints:
            yield o, [1], [list(i)]
    for p in pairs:
        yield [0], [], p
        if th:
            for c in ints:
                yield [2], [0], p + [list(c)]


def decl(names, items):
    return [[n, list(MENU[i][0]), MENU[i][1], bool(b)]
            for n, (i, b) in zip(names, items)]


def cells(a):
    """addresses of the elements of a view"""
    base = a.__array_interface__['data'][0]
    idx = np.indices(a.shape).reshape(a.ndim, -1)
    return base + (np.array(a.strides)[:, None] * idx).sum(0)


def struct(case, ctx):
    o, p, i = case['o'], case['p'], case['i']
    kw = dict(outs=decl(['b', 'a', 'c'], [(x, 0) for x in o]),
              params=[[n, list(PMENU[x][0]), 0, False] for n, x in
                      zip(['w', 'v', 'x'], p)],
              internals=decl(['q', 'p', 'r'], i))
    for src in ('Input', 'hid'):
        b = Builder(x=[2])
        s = O('Input', 'x')
        if src == 'hid':
            s = b.add('hid', 'Lstm', s, size=2)
        b.layers.append(['toy', 'Toy', kw, {'default': [s]}])
        net = make_net(b.spec())
        what = 'layer with %s' % kw
        toy = net.layers['toy']
        last = None
        for n, (T, B) in enumerate(SIZES):
            net.provide_external_data({'x': gen((T, B), (T, B, 2))})
            view = net.buffer['toy']

            def expect(shape, c):
                if shape[0] == 'T':
                    return (T + c, B) + tuple(shape[2:])
                if shape[0] == 'B':
                    return (B,) + tuple(shape[1:])
                return tuple(shape)

            seen, bufs = {}, {}
            for cat, items in (('outputs', kw['outs']),
                               ('output_deltas', kw['outs']),
                               ('parameters', kw['params']),
                               ('gradients', kw['params']),
                               ('internals', kw['internals'])):
                v = view[cat]
                check(list(v.keys()) == [x[0] for x in items],
                      '{}: {} are called {}', what, cat, list(v.keys()))
                for name, shape, c, bwd in items:
                    a = v[name]
                    path = cat + '.' + name
                    check(a.shape == expect(shape, c), '{}: {} has shape {} '
                          'at T={} B={}', what, path, a.shape, T, B)
                    bufs[path] = a, bwd or cat in ('output_deltas',
                                                   'gradients')
                    for x in cells(a):
                        check(x not in seen, '{}: {} and {} share memory at '
                              'T={} B={}', what, path, seen.get(x), T, B)
                        seen[x] = path
            # nothing outside this layer overlaps, except the connections
            # and the joint vectors of parameters and gradients
            for lname in net.layers:
                if lname == 'toy':
                    continue
                for cat in net.buffer[lname].keys():
                    for name, a in net.buffer[lname][cat].items():
                        check(not set(cells(a)) & set(seen), '{}: shares '
                              'memory with {}.{}.{}', what, lname, cat, name)
            for cat in ('parameters', 'gradients'):
                mine = set(cells(net.buffer[cat]))
                for path, (a, _) in bufs.items():
                    inside = set(cells(a)) <= mine
                    check(inside == (path.split('.')[0] == cat) or
                          not a.size, '{}: {} is {}part of the {} of the '
                          'network', what, path, '' if inside else 'not ',
                          cat)
            # parameters keep their values
            if last is not None:
                for path, val in last.items():
                    check(np.array_equal(bufs[path][0], val),
                          '{}: {} changed by resizing to T={} B={}', what,
                          path, T, B)
            for k, (path, (a, _)) in enumerate(sorted(bufs.items())):
                a[...] = (k + 1) * 1000 + n * 100 + np.arange(
                    a.size).reshape(a.shape)
            before = {q: a.copy() for q, (a, _) in bufs.items()}
            net.forward_pass(training_pass=True)
            for path, (a, _) in bufs.items():
                c = T if path.startswith('outputs') or \
                    path.startswith('internals') else None
                timed = any(path.split('.')[1] == x[0] and x[1][0] == 'T'
                            for x in kw['outs'] + kw['internals'])
                w = before[path].copy()
                if timed and path.split('.')[0] in ('outputs', 'internals',
                                                    'output_deltas'):
                    w[T:] = 0
                check(np.array_equal(a, w), '{}: {} changed by the forward '
                      'pass', what, path)
            net.backward_pass()
            for path, (a, bwd) in bufs.items():
                if bwd:
                    check(not a.any(), '{}: {} is not cleared by the '
                          'backward pass', what, path)
                elif path.split('.')[0] == 'parameters':
                    check(np.array_equal(a, before[path]), '{}: {} changed '
                          'by the backward pass', what, path)
            for path, shape in [('parameters.' + x[0], x[1])
                                for x in kw['params']] + \
                    [('outputs.' + x[0], x[1]) for x in kw['outs']] + \
                    [('internals.' + x[0], x[1]) for x in kw['internals']]:
                check(tuple(toy.get_shape(path).shape) == tuple(shape),
                      '{}: get_shape({})', what, path)
            last = {q: v for q, v in before.items()
                    if q.startswith('parameters')}
            ctx.step()
    ctx.state(json.dumps(kw, sort_keys=True))
    ctx.trace()


# --------------------------------- context ---------------------------------

def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        parts, cur = [], 1
        for b in bits:
            if b:
                parts.append(cur)
                cur = 1
            else:
                cur += 1
        yield tuple(parts + [cur])


def ctx_cases(th):
    n = 6 if th else 5
    kinds = [['R', c, s] for c in (0, 1, 2, 3) for s in ('out', 'int')]
    other = [['Lstm'], ['Recurrent'], ['FullyConnected'], ['Input']]
    for k in kinds:
        yield dict(k='ctx', form='one', ls=[k], n=n)
    for a, b in itertools.product(kinds, repeat=2):
        yield dict(k='ctx', form='series', ls=[a, b], n=n)
    out = [k for k in kinds if k[2] == 'out']
    for a, b in itertools.product(out + other[:3], out + other):
        yield dict(k='ctx', form='concat', ls=[a, b], n=n)
    for t in itertools.product(out + [['Lstm']], repeat=3):
        yield dict(k='ctx', form='concat', ls=list(t), n=n)
        yield dict(k='ctx', form='chain', ls=list(t), n=4)


def ctx_spec(case):
    b = Builder(x=[2])
    srcs, cur = [], O('Input', 'x')
    for i, l in enumerate(case['ls']):
        name = 's%d' % i
        if l[0] == 'Input':
            srcs.append(O('Input', 'x'))
            continue
        src = cur if case['form'] == 'series' else O('Input', 'x')
        if l[0] == 'R':
            b.layers.append([name, 'Recall', dict(ctx=l[1], store=l[2],
                                                  w=0.5 - 0.1 * i),
                             {'default': [src]}])
            b.shape[name, 'default'] = [2]
            o = O(name)
        else:
            o = b.add(name, l[0], src, size=2)
        srcs.append(o)
        cur = o
    if case['form'] == 'concat':
        b.add('z', 'NoOp', srcs)
    elif case['form'] == 'chain':
        b.add('z0', 'NoOp', srcs[:2])
        b.add('z1', 'NoOp', srcs[1:])
    else:
        b.add('z', 'NoOp', cur)
    return b.spec()


def recall(x, c, w):
    y = np.zeros_like(x)
    for t in range(len(x)):
        y[t] = x[t] + sum(w ** k * y[t - k] for k in range(1, c + 1)
                          if t >= k)
    return y


def context(case, ctx):
    spec = ctx_spec(case)
    n = case['n']
    x = gen('ctx', (n, 2, 2))
    for h in ('plain', 'debug'):
        net = make_net(spec)
        if h == 'debug':
            if case['form'] == 'chain':
                continue
            net.set_handler(DebugHandler(NumpyHandler(np.float64)))
        set_params(net, generic_params(net))
        names = [l[0] for l in spec if l[0][0] in 'sz']

        def outs():
            res = {}
            for l in names:
                a = net.get(l + '.outputs.default')
                T = net.get_input('x').shape[0]
                res[l] = a[:T]
            return res

        def run(part, context=None):
            net.provide_external_data({'x': part.copy()})
            net.forward_pass(context=context)
            return outs()
        whole = run(x)
        for i, l in enumerate(case['ls']):
            if l[0] == 'R':
                src = whole['s%d' % (i - 1)] if case['form'] == 'series' and \
                    i else x
                want = recall(src, l[1], 0.5 - 0.1 * i)
                check(np.allclose(whole['s%d' % i], want, 1e-12, 1e-12),
                      '{}: own layer s{} computes {} instead of {}',
                      case['ls'], i, whole['s%d' % i], want)
        for parts in compositions(n):
            pos, c, saved = 0, None, []
            for T in parts:
                got = run(x[pos:pos + T], c)
                saved.append((pos, T, c))
                for l in names:
                    check(np.allclose(got[l], whole[l][pos:pos + T], 1e-11,
                                      1e-11), '{} {}: sequences of {} time '
                          'steps with the context carried over: {} differs '
                          'from one of {} at step {}', case['form'],
                          case['ls'], parts, l, n, pos)
                c = net.get_context()
                pos += T
                ctx.step()
            # going back to contexts taken earlier
            for pos, T, c in saved[::-1]:
                got = run(x[pos:pos + T], c)
                for l in names:
                    check(np.allclose(got[l], whole[l][pos:pos + T], 1e-11,
                                      1e-11), '{} {}: parts {} repeated with '
                          'an earlier context: {} differs at step {}',
                          case['form'], case['ls'], parts, l, pos)
                ctx.step()
            ctx.state((repr(case['ls']), parts))
    ctx.trace()


# -------------------------------- own flows --------------------------------

# name, accepts, gives
FLOW = [('OwnDense', 'TB', 'TB'), ('OwnDense3', 'B', 'B'),
        ('LastStep', 'TB', 'B'), ('Repeat', 'B', 'TB'),
        ('OwnSquare', None, None), ('Recall', 'TB', 'TB'),
        ('PoolAll', None, 'C'), ('Lstm', 'TB', 'TB'),
        ('FullyConnected', 'TB', 'TB')]


def flow_cases(th):
    for n in range(1, 5 if th else 4):
        for word in itertools.product(range(len(FLOW)), repeat=n):
            kind = 'TB'
            for w in word:
                if FLOW[w][1] not in (None, kind):
                    break
                kind = FLOW[w][2] or kind
            else:
                if all(FLOW[w][0] in ('Lstm', 'FullyConnected')
                       for w in word):
                    continue
                yield dict(k='flow', word=list(word))


def flow(case, ctx):
    word = [FLOW[w][0] for w in case['word']]
    for fan in (False, True):
        if fan and len(word) > 3:
            continue
        spec = [['Input', 'Input', {'out_shapes': {'x': [2]}}, {}]]
        cur = O('Input', 'x')
        ends = []
        for i, typ in enumerate(word):
            kw = dict(size=2) if typ.startswith('OwnDense') or \
                typ in ('Lstm', 'FullyConnected') else {}
            if typ == 'Recall':
                kw = dict(ctx=2, store='int')
            spec.append(['l%d' % i, typ, kw, {'default': [cur]}])
            cur = O('l%d' % i)
            if fan and i < len(word) - 1:
                ends.append(cur)
            if typ == 'Repeat':
                ends.append(O('l%d' % i, 'square'))
        ends.append(cur)
        if fan and len(ends) == 1:
            continue
        for j, e in enumerate(ends):
            spec.append(['loss%d' % j, 'Loss', dict(importance=1.0 + 0.5 * j),
                         {'default': [e]}])
        net = make_net(spec)
        params = generic_params(net)
        for T, B in ((1, 1), (3, 2), (2, 3)):
            set_params(net, params)
            x = gen((T, B, 'flow'), (T, B, 2))
            net.provide_external_data({'x': x})
            net.forward_pass(training_pass=True)
            net.backward_pass()
            g = net.get('parameters').copy() * 0
            grad = net.get('gradients')
            dx = net.get('Input.output_deltas.x')
            loss = net.get_loss_values()['total_loss']

            def value(p, x):
                net.buffer.parameters[:] = p
                net.provide_external_data({'x': x})
                net.forward_pass(training_pass=True)
                return net.get_loss_values()['total_loss']
            p0 = net.get('parameters')
            eps = 1e-5
            for i in range(p0.size):
                d = np.zeros_like(p0)
                d[i] = eps
                g[i] = (value(p0 + d, x) - value(p0 - d, x)) / (2 * eps)
            gx = np.zeros_like(x)
            for i in range(x.size):
                d = np.zeros(x.size)
                d[i] = eps
                d = d.reshape(x.shape)
                gx.flat[i] = (value(p0, x + d) - value(p0, x - d)) / (2 * eps)
            tol = 1e-5 * (1 + max(np.abs(g).max() if g.size else 0,
                                  np.abs(gx).max()))
            check(not g.size or np.abs(g - grad).max() < tol, '{} (T={}, '
                  'B={}): gradient {} but the loss changes by {}', word, T,
                  B, grad, g)
            check(np.abs(gx - dx).max() < tol, '{} (T={}, B={}): input '
                  'deltas {} but the loss changes by {}', word, T, B, dx, gx)
            check(value(p0, x) == loss, '{}: repeating a pass gives another '
                  'loss', word)
            ctx.step()
        d = json.loads(json.dumps(get_description(net)))
        two = create_from_description(d)
        check(list(two.layers) == list(net.layers) and all(
            type(two.layers[l]) is type(net.layers[l]) for l in net.layers),
            '{}: re-created with other layers', word)
        set_params(two, params)
        two.provide_external_data({'x': x})
        two.forward_pass(training_pass=True)
        check(two.get_loss_values() == net.get_loss_values(), '{}: re-created'
              ' network computes {} instead of {}', word,
              two.get_loss_values(), net.get_loss_values())
    ctx.state(tuple(word))
    ctx.trace()


# -------------------------------- templates --------------------------------

ENTRIES = ['T', 'B', 1, 2, 'F', '...']


def valid(dims, template):
    """The rules of docs/internals.rst."""
    dims = list(dims)
    if not dims:
        return False
    if 'T' in dims:
        if dims[:2] != ['T', 'B']:
            return False
        feat = dims[2:]
    elif 'B' in dims:
        if dims[0] != 'B':
            return False
        feat = dims[1:]
    else:
        feat = dims
    if template and feat == ['...']:
        return True
    if template and feat and all(f == 'F' for f in feat):
        return True
    return bool(feat) and all(isinstance(f, int) for f in feat) or \
        (template and not feat)


def fits(dims, templ):
    s, t = list(dims), list(templ)
    if '...' in t:
        head = t[:-1]
        if not head:
            return True
        return s[:len(head)] == head and len(s) > len(head) and \
            not any(isinstance(x, str) for x in s[len(head):])
    return len(s) == len(t) and all(
        a == b or (b == 'F' and isinstance(a, int)) for a, b in zip(s, t))


def made(cls, dims, **kw):
    try:
        return cls(*dims, **kw)
    except StructureValidationError:
        return None


def template(case, ctx):
    n = case['n']
    shapes = [d for m in range(1, 5) for d in
              itertools.product(['T', 'B', 1, 2], repeat=m)
              if valid(d, False)]
    for dims in itertools.product(ENTRIES, repeat=n):
        for cls, t in ((BufferStructure, False), (StructureTemplate, True)):
            if t and dims in ((), ('T', 'B'), ('B',)):
                continue      # whether features may be left out is not said
            for c in (0, 1, 3, -1, 1.5):
                ok = valid(dims, t) and (
                    c == 0 or (c in (1, 3) and 'T' in dims))
                got = made(cls, dims, context_size=c)
                check((got is not None) == ok, '{}{} with context size {} is '
                      '{}', cls.__name__, dims, c,
                      'rejected' if ok else 'accepted')
                ctx.step()
        if dims in (('T', 'B'), ('B',)) or not valid(dims, True):
            continue
        tm = StructureTemplate(*dims)
        for s in shapes:
            got = bool(tm.matches(BufferStructure(*s)))
            check(got == fits(s, dims), 'template {} {} structure {}', dims,
                  'matches' if got else 'does not match', s)
            ctx.step()
        # as the declared input of a layer
        name = 'Sink%dLayerImpl' % next(COUNTER)
        sink = type(str(name), (ToyLayerImpl,), {
            'expected_inputs': {'default': tm}})
        for s in shapes[::3]:
            for direct in (True, False):
                try:
                    if direct:
                        sink('s', {'default': BufferStructure(*s)}, set(),
                             set())
                    else:
                        b = Builder(x=[2])
                        b.layers.append(['a', 'Toy', dict(outs=[
                            ['o', list(s), 0, False]]),
                            {'default': [O('Input', 'x')]}])
                        b.layers.append(['s', name[:-9], {},
                                         {'default': [O('a', 'o')]}])
                        make_net(b.spec())
                    got = True
                except LayerValidationError:
                    got = False
                check(got == fits(s, dims), 'a layer expecting {} {} an '
                      'input {}', dims, 'accepts' if got else 'rejects', s)
                ctx.step()
        ctx.state(dims)
    ctx.trace()


COUNTER = itertools.count()

# ---------------------------------- clones ---------------------------------


def subclass(cls, n, levels=1):
    """An empty subclass (of a subclass) under a name of its own."""
    base = cls.__name__
    for i in range(levels):
        if base.endswith('LayerImpl'):
            name = 'My%s%d%s' % ('x' * i, n, base)
        else:
            name = 'My%s%d%s' % ('x' * i, n, base)
        cls = type(str(name), (cls,), {'__doc__': 'mine'})
    return cls


MADE = {}


def clone_type(typ, levels=1):
    if (typ, levels) not in MADE:
        from brainstorm.layers.base_layer import get_layer_class_from_typename
        cls = get_layer_class_from_typename(typ + 'LayerImpl')
        MADE[typ, levels] = subclass(cls, levels, levels)
    return MADE[typ, levels].__name__[:-9]


def buffers(net):
    res = {}
    for l in net.layers:
        for cat in net.buffer[l].keys():
            for name, a in net.buffer[l][cat].items():
                res[l + '.' + cat + '.' + name] = net.handler.get_numpy_copy(
                    a)
    return res


def same_buffers(a, b, what):
    check(list(a) == list(b), '{}: has buffers {} instead of {}', what,
          list(b), list(a))
    for k in a:
        check(a[k].shape == b[k].shape and np.array_equal(
            a[k], b[k], equal_nan=True), '{}: {} is {} instead of {}', what,
            k, b[k], a[k])


def passes(net, spec):
    res = []
    net.handler.rnd.set_seed(3)
    c = None
    for T, B in ((2, 3), (1, 3), (3, 2)):
        net.provide_external_data(input_data(spec, T, B, ('clone', T)))
        net.forward_pass(training_pass=True, context=c if B == 3 else None)
        net.backward_pass()
        res.append(dict(buffers(net), **{
            'loss:' + k: np.array(v) for k, v in
            net.get_loss_values().items()} if net.loss_layers else {}))
        c = net.get_context()
        net.forward_pass()
        res.append(buffers(net))
    return res


def from_wiring(spec, types):
    """The same network through >> with the classes themselves."""
    from brainstorm.layers.base_layer import get_layer_class_from_typename
    w, order = {}, []
    for name, typ, kw, ins in spec:
        if typ == 'Input':
            w[name] = BL.Input(architecture(spec)['Input']['out_shapes'])
        else:
            cls = get_layer_class_from_typename(types[name] + 'LayerImpl')
            w[name] = ConstructionWrapper.create(cls, name=name, **kw)
    for name, typ, kw, ins in spec:
        for iname, srcs in ins.items():
            for src, path in srcs:
                key = path[8:] if path.startswith('outputs.') else \
                    '..' + path
                w[src] - key >> iname - w[name]
    return bs.Network.from_layer(w['Input'])


def layerclone(case, ctx):
    spec = C24.ALL[case['i']]
    ref = make_net(spec)
    params = generic_params(ref)
    set_params(ref, params)
    want = passes(ref, spec)
    names = [l[0] for l in spec if l[1] != 'Input']
    tmp = tempfile.mkdtemp()
    try:
        sets = [[n] for n in names] + [names]
        for which in sets:
            for levels in (1, 2):
                types = {l[0]: clone_type(l[1], levels)
                         if l[0] in which else l[1] for l in spec}
                mine = [[l[0], types[l[0]], l[2], l[3]] for l in spec]
                what = 'own subclasses for %s in network %d' % (which,
                                                                case['i'])
                net = make_net(mine)
                set_params(net, params)
                for a, b in zip(want, passes(net, spec)):
                    same_buffers(a, b, what)
                check(net.loss_layers == ref.loss_layers, '{}: loss layers '
                      '{} instead of {}', what, net.loss_layers,
                      ref.loss_layers)
                ctx.step()
                if levels == 1 and which is not names:
                    continue
                again = [create_from_description(json.loads(json.dumps(
                    get_description(net))))]
                path = os.path.join(tmp, 'n.hdf5')
                net.save_as_hdf5(path)
                again.append(bs.Network.from_hdf5(path))
                w = from_wiring(spec, types)
                w.set_handler(NumpyHandler(np.float64))
                for j, two in enumerate(again + [w]):
                    set_params(two, params)
                    check({l: type(two.layers[l]) for l in two.layers} ==
                          {l: type(net.layers[l]) for l in net.layers},
                          '{}: re-created with other classes', what)
                    if j == 2 and list(two.layers) != list(net.layers):
                        continue
                    for a, b in zip(want, passes(two, spec)):
                        same_buffers(a, b, what + ' (re-created)')
                    ctx.step()
            ctx.state((case['i'], tuple(which)))
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


def retype(d, names):
    """replace the types in a description"""
    if isinstance(d, dict):
        return {k: names.get(v, v) if k == '@type' else retype(v, names)
                for k, v in d.items()}
    if isinstance(d, list):
        return [retype(v, names) for v in d]
    return d


def objclone(case, ctx):
    cls, argss, probe = C07.CLASSES[case['cls']]
    if cls not in MADE:
        one = subclass(cls, 1)
        MADE[cls] = one, subclass(one, 2)
    one, two = MADE[cls]
    for i in range(case['lo'], case['hi']):
        def fresh(c):
            bs.global_rnd.set_seed(11)
            return C07.make((c, argss[i]))
        want_d = C07.through_json(get_description(fresh(cls)))
        want = probe(fresh(cls))
        if issubclass(cls, sc.Scorer) and not argss[i].get('name'):
            want = want[1:]
        for c in (one, two):
            what = 'own subclass of %s(%s)' % (case['cls'], argss[i])
            o = fresh(c)
            d = C07.through_json(get_description(o))
            plain = retype(d, {c.__name__: cls.__name__})
            if plain.get('__name__') == c.__name__:
                plain['__name__'] = cls.__name__      # the default name
            check(plain == want_d,
                  '{}: described as {} instead of {}', what, d, want_d)
            check(d['@type'] == c.__name__, '{}: described as a {}', what,
                  d['@type'])
            for again in (False, True):
                if again:
                    bs.global_rnd.set_seed(11)
                    o = create_from_description(d)
                    check(type(o) is c, '{}: re-created as {}', what, type(o))
                    check(C07.through_json(get_description(o)) == d,
                          '{}: described differently after re-creating',
                          what)
                got = probe(o)
                if issubclass(cls, sc.Scorer) and not argss[i].get('name'):
                    check(again or got[0] == c.__name__, '{}: called {}',
                          what, got[0])
                    got = got[1:]
                check(C07.same(got, want), '{}{}: gives {} instead of {}',
                      what, ' re-created' if again else '', got, want)
                ctx.step()
        ctx.state((case['cls'], i))
    ctx.trace()


# ------------------------------ from scratch -------------------------------

class OwnInit(ini.Initializer):
    def __init__(self, std=0.1):
        super(OwnInit, self).__init__()
        self.std = std

    def __call__(self, shape):
        return self.rnd.standard_normal(shape) * self.std + 0.0


class OwnClip(vm.ValueModifier):
    def __init__(self, limit=0.3):
        super(OwnClip, self).__init__()
        self.limit = limit

    def __call__(self, handler, view):
        handler.clip_t(view, -self.limit, self.limit, view)


class OwnDecay(vm.GradientModifier):
    def __init__(self, factor=0.1):
        super(OwnDecay, self).__init__()
        self.factor = factor

    def __call__(self, handler, parameters, gradients):
        handler.mult_add_st(self.factor, parameters, gradients)


class OwnError(sc.Scorer):
    def __call__(self, true_labels, predicted, mask=None):
        e = (true_labels - predicted) ** 2
        return 0.5 * np.sum(e if mask is None else e * mask)


class OwnStepper(st.TrainingStepper):
    __undescribed__ = {'tmp'}

    def __init__(self, learning_rate=0.1):
        super(OwnStepper, self).__init__()
        self.learning_rate = learning_rate
        self.tmp = None

    def start(self, net):
        super(OwnStepper, self).start(net)
        self.tmp = net.handler.zeros(net.buffer.parameters.shape)

    def run(self):
        h = self.net.handler
        self.net.forward_pass(training_pass=True)
        self.net.backward_pass()
        h.mult_st(-self.learning_rate, self.net.buffer.gradients, self.tmp)
        h.add_tt(self.tmp, self.net.buffer.parameters,
                 self.net.buffer.parameters)


class OwnBatches(DataIterator):
    """Minibatches without shuffling"""

    def __init__(self, n, **data):
        size = next(iter(data.values())).shape[1]
        super(OwnBatches, self).__init__(
            {k: v.shape[2:] for k, v in data.items()}, -(-size // n))
        self.n, self.size, self.data = n, size, data

    def __call__(self, handler):
        for i in range(0, self.size, self.n):
            yield {k: v[:, i:i + self.n] for k, v in self.data.items()}


class OwnStop(H.Hook):
    def __init__(self, max_epochs, name=None, timescale='epoch', interval=1,
                 verbose=None):
        super(OwnStop, self).__init__(name, timescale, interval, verbose)
        self.max_epochs = max_epochs

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if epoch_nr >= self.max_epochs:
            raise StopIteration()


class OwnMonitor(H.Hook):
    """what MonitorScores with one scorer does"""
    __undescribed__ = {'iter'}

    def __init__(self, iter_name, scorers, name=None, timescale='epoch',
                 interval=1, verbose=None):
        super(OwnMonitor, self).__init__(name, timescale, interval, verbose)
        self.iter_name, self.scorers, self.iter = iter_name, scorers, None

    def start(self, net, stepper, verbose, named_data_iters):
        super(OwnMonitor, self).start(net, stepper, verbose,
                                      named_data_iters)
        self.iter = named_data_iters[self.iter_name]

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        return bs.tools.evaluate(net, self.iter, self.scorers)


class OwnSchedule(Describable):
    def __init__(self, initial_value, factor):
        self.initial_value, self.factor = initial_value, factor

    def __call__(self, epoch_nr, update_nr, timescale, interval, net,
                 stepper, logs):
        n = epoch_nr if timescale == 'epoch' else update_nr
        return float(self.initial_value * self.factor ** (n // interval))


class OwnHandler(NumpyHandler):
    def dot_mm(self, a, b, out, transa=False, transb=False):
        super(OwnHandler, self).dot_mm(a, b, out, transa, transb)
        self.__class__.used += 1
    used = 0


class OwnEarly(H.EarlyStopper):
    pass


class OwnTanhLayerImpl(Layer):
    expected_inputs = {'default': StructureTemplate('T', 'B', '...')}
    expected_kwargs = {'activation'}

    def setup(self, kwargs, in_shapes):
        return in_shapes, OrderedDict(), OrderedDict()

    def forward_pass(self, buffers, training_pass=True):
        self.handler.tanh(buffers.inputs.default, buffers.outputs.default)

    def backward_pass(self, buffers):
        b = buffers
        self.handler.tanh_deriv(b.inputs.default, b.outputs.default,
                                b.output_deltas.default,
                                b.input_deltas.default)


PARTS = ['init', 'vmod', 'gmod', 'scorer', 'stepper', 'iter', 'valid',
         'stop', 'monitor', 'layer', 'schedule', 'handler']
SCALES = [('epoch', 1), ('update', 1), ('update', 2), ('epoch', 2)]


def scratch_cases(th):
    # by deriving from the built-in component, all singles and pairs
    for s in range(len(SCALES)):
        sets = [c for k in ((1, 2, len(PARTS)) if not s or th else
                            (1, len(PARTS)))
                for c in itertools.combinations(PARTS, k)]
        for lo in range(0, len(sets), 20):
            yield dict(k='scratch', s=s, v=False, sets=[
                list(c) + ['sub'] for c in sets[lo:lo + 20]])
    for s in range(len(SCALES)):
        for verbose in (False, True):
            if (s or verbose) and not th:
                # at least all single and all pairs
                sets = [c for k in (1, 2, len(PARTS)) for c in
                        itertools.combinations(PARTS, k)]
                for lo in range(0, len(sets), 20):
                    yield dict(k='scratch', s=s, v=verbose,
                               sets=[list(c) for c in sets[lo:lo + 20]])
                continue
            for bits in itertools.product((0, 1), repeat=5):
                head = [p for p, b in zip(PARTS[-5:], bits) if b]
                yield dict(k='scratch', s=s, v=verbose, sets=[
                    [p for p, b in zip(PARTS[:-5], bb) if b] + head
                    for bb in itertools.product((0, 1),
                                                repeat=len(PARTS) - 5)])


DEEP = {}


def deep(x):
    """the same as an instance / type of a subclass of a subclass"""
    if isinstance(x, str):
        return clone_type(x, 2)
    cls = x if isinstance(x, type) else type(x)
    if cls not in DEEP:
        DEEP[cls] = subclass(subclass(cls, 3), 4)
    if cls is x:
        return DEEP[cls]
    x.__class__ = DEEP[cls]
    return x


def pick_from(own, part, mine, theirs):
    if part not in own:
        return theirs
    return deep(theirs) if 'sub' in own else mine


def build(own, s, lists):
    """Everything needed for a training, with these parts user-written."""
    def pick(part, mine, theirs):
        return pick_from(own, part, mine, theirs)
    bs.global_rnd.set_seed(21)
    b = Builder(default=[3])
    o = b.add('hid', 'FullyConnected', O('Input', 'default'), size=3,
              activation='linear')
    o = b.add('act', pick('layer', 'OwnTanh', 'Elementwise'), o,
              activation='tanh')
    o = b.add('rec', 'Recurrent', o, size=2)
    b.layers.append(['Output', 'SquaredError', {}, {
        'default': [o], 'targets': [b.extra('targets', [2])]}])
    b.layers.append(['Loss', 'Loss', {}, {'default': [
        ['Output', 'outputs.loss']]}])
    h = pick('handler', OwnHandler, NumpyHandler)(np.float64)
    net = make_net(b.spec(), handler=h)
    net.output_name = 'Output.outputs.predictions'
    g = pick('init', OwnInit, ini.Gaussian)
    vmod = pick('vmod', OwnClip(0.4), vm.ClipValues(-0.4, 0.4))
    gmod = pick('gmod', OwnDecay(0.1), vm.L2Decay(0.1))
    if lists == 0:
        net.initialize(g(0.5), seed=4)
        net.set_weight_modifiers(vmod)
        net.set_gradient_modifiers(gmod)
    elif lists == 1:
        net.initialize({'hid': {'W': g(0.3), 'b*': 0.1},
                        'fallback': g(0.6), 'default': ini.Orthogonal()},
                       seed=4)
        net.set_weight_modifiers({'hid': [vm.ClipValues(-1, 0.5), vmod],
                                  'r*': {'R': vmod}})
        net.set_gradient_modifiers({'*d': {'W': [gmod, vm.ClipValues(
            -0.3, 0.3)], 'bias': [pick('vmod', OwnClip(0.2), vm.ClipValues(
                -0.2, 0.2)), gmod]}})
    else:
        net.initialize(default=g(0.5), rec={'R': g(0.1), 'default': g(0.2)},
                       seed=9)
        net.set_weight_modifiers(default=vmod, hid={'W': [
            vmod, pick('vmod', OwnClip(0.2), vm.ClipValues(-0.2, 0.2))]})
        net.set_gradient_modifiers(default=[gmod, gmod],
                                   rec={'W': gmod, 'default': []})
    stepper = pick('stepper', OwnStepper, st.SgdStepper)(0.2)
    scorers = [pick('scorer', OwnError, sc.MeanSquaredError)(name='mse'),
               sc.Hamming(name='ham')]
    tr = Trainer(stepper, verbose=False)
    tr.train_scorers = scorers
    ts, iv = SCALES[s]
    mon = pick('monitor', OwnMonitor, H.MonitorScores)
    tr.add_hook(mon('valid', scorers, name='val', timescale=ts, interval=iv))
    tr.add_hook(H.ModifyStepperAttribute(
        pick('schedule', OwnSchedule, sch.Exponential)(0.3, 0.5),
        'learning_rate', timescale=ts, interval=iv, name='mod'))
    tr.add_hook(H.EarlyStopper('val.mse', patience=2, name='early',
                               timescale=ts, interval=iv))
    tr.add_hook(H.SaveBestNetwork('val.total_loss', name='best',
                                  timescale=ts, interval=iv))
    tr.add_hook(pick('stop', OwnStop, H.StopAfterEpoch)(3, name='stop'))
    return net, tr


def iters(own):
    def data(n, key):
        return dict(default=gen((key, 'x'), (2, n, 3)),
                    targets=gen((key, 't'), (2, n, 2)))
    bs.global_rnd.set_seed(33)

    def mk(part, n, **d):
        if part in own and 'sub' not in own:
            return OwnBatches(n, **d)
        it = Minibatches(n, shuffle=False, **d)
        return deep(it) if part in own else it
    return mk('iter', 2, **data(5, 'a')), mk('valid', 3, **data(4, 'b'))


def observe(net, tr, own, verbose):
    tr.verbose = verbose
    a, b = iters(own)
    start = net.get('parameters')
    with contextlib.redirect_stdout(io.StringIO()):
        tr.train(net, a, valid=b)
        best = tr.hooks['best'].parameters
        ev = tr.evaluate(net, valid=iters(own)[1])
    return json.loads(json.dumps([
        start.tolist(), net.get('parameters').tolist(),
        {k: v for k, v in tr.logs.items()}, np.asarray(best).tolist(),
        ev, tr.current_epoch_nr, tr.current_update_nr]))


REF = {}


def scratch(case, ctx):
    s, verbose = case['s'], case['v']
    tmp = tempfile.mkdtemp()
    try:
        for own in case['sets']:
            for lists in range(3):
                if len(own) > 3 and (len(own) + lists) % 3 and \
                        'sub' not in own:
                    continue
                key = s, verbose, lists
                if key not in REF:
                    REF[key] = observe(*(build([], s, lists) +
                                         ([], verbose)))
                what = 'training with own %s (%s, form %d)' % (
                    ', '.join(own), SCALES[s], lists)
                used = OwnHandler.used
                net, tr = build(own, s, lists)
                d = [C07.through_json(get_description(x))
                     for x in (net, tr)]
                path = os.path.join(tmp, 'n.hdf5')
                net.save_as_hdf5(path)
                got = observe(net, tr, own, verbose)
                same_run(got, REF[key], what)
                check('handler' not in own or 'sub' in own or
                      OwnHandler.used > used,
                      '{}: the own handler was not used', what)
                ctx.step()
                if 'sub' not in own and \
                        len(PARTS) > len(own) > (1 if s or verbose else 2):
                    continue
                # everything again from the descriptions and from the file
                for n2 in (create_from_description(d[0]),
                           bs.Network.from_hdf5(path)):
                    t2 = create_from_description(d[1])
                    n2.initialize(create_from_description(n2.initializers),
                                  seed=9 if lists == 2 else 4)
                    got = observe(n2, t2, own, verbose)
                    same_run(got, REF[key], what + ' re-created')
                    ctx.step()
            ctx.state((s, verbose, tuple(own)))
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


def same_run(got, want, what):
    for g, w, part in zip(got, want, ('initial parameters', 'parameters',
                                      'logs', 'best parameters',
                                      'evaluation', 'epochs', 'updates')):
        check(g == w, '{}: {} are {} instead of {}', what, part, g, w)


# ----------------------------------- names ---------------------------------

def names(case, ctx):
    """Types whose names contain each other are told apart, whenever they
    are defined."""
    stems = ['Abc', 'MyAbc', 'AbcMy', 'AbcAbc', 'abc', 'ABC', 'Ab', 'A',
             'LayerImpl', 'AbcLayerImpl', 'Impl', 'Abc1', 'Abc_1', '_Abc']
    made = {}
    for order in (stems, stems[::-1]):
        for stem in order:
            if stem in made:
                continue
            tag = len(made) + 1
            # half of them derive from one another
            base = ToyLayerImpl if tag % 2 or not made else \
                made[sorted(made)[0]][0]
            cls = type(str(stem + 'LayerImpl'), (base,), {'tag': tag})
            obj = type(str(stem), (C07.ToyInner,), {'tag': tag})
            made[stem] = cls, obj, tag
            for other, (c, o, t) in made.items():
                for how in range(3):
                    kw = dict(outs=[['default', ['T', 'B', 1], 0, False]])
                    if how == 0:
                        arch = {'Input': {'@type': 'Input', 'out_shapes': {
                            'default': ['T', 'B', 1]},
                            '@outgoing_connections': ['l']},
                            'l': dict(kw, **{'@type': other,
                                             '@outgoing_connections': []})}
                        net = bs.Network.from_architecture(arch)
                    else:
                        l = ConstructionWrapper.create(
                            c if how == 1 else other + 'LayerImpl',
                            name='l', **kw)
                        net = bs.Network.from_layer(BL.Input(
                            {'default': ('T', 'B', 1)}) >> l)
                    check(type(net.layers['l']) is c, 'layer type {} is '
                          'instantiated as {} (after defining {})', other,
                          type(net.layers['l']), sorted(made))
                    ctx.step()
                x = o.__new__(o)
                d = get_description(x)
                check(d['@type'] == other, '{} described as {}', other, d)
                check(type(create_from_description(d)) is o, '{} re-created '
                      'as another class', other)
                ctx.step()
            for unknown in ('Abcd', 'bc', 'MyAb', 'abcAbc'):
                for f in (lambda: bs.Network.from_architecture(
                        {'Input': {'@type': 'Input', 'out_shapes': {
                            'default': ['T', 'B', 1]},
                            '@outgoing_connections': ['l']},
                         'l': {'@type': unknown,
                               '@outgoing_connections': []}}),
                          lambda: create_from_description(
                              {'@type': unknown})):
                    try:
                        f()
                    except TypeError:
                        ctx.step()
                        continue
                    raise Violation('type %r was found among %s' % (
                        unknown, sorted(made)))
        ctx.state(tuple(order))
    ctx.trace()


# ------------------------------------ run ----------------------------------

def cases(tier):
    th = tier == 'thorough'
    yield dict(k='names')
    for n in range(0, 5):
        yield dict(k='template', n=n)
    for o, p, i in struct_cases(th):
        yield dict(k='struct', o=o, p=p, i=i)
    for c in ctx_cases(th):
        yield c
    for c in flow_cases(th):
        yield c
    for i in range(len(C24.ALL)):
        yield dict(k='layerclone', i=i)
    for name in sorted(C07.CLASSES):
        n = len(C07.CLASSES[name][1])
        for lo in range(0, n, 30):
            yield dict(k='objclone', cls=name, lo=lo, hi=min(n, lo + 30))
    for c in scratch_cases(th):
        yield c


KINDS = dict(struct=struct, ctx=context, flow=flow, template=template,
             layerclone=layerclone, objclone=objclone, scratch=scratch,
             names=names)


def run(case, ctx):
    KINDS[case['k']](case, ctx)
