"""Weight and gradient modifiers act as documented and on time."""
import copy
import itertools
import math

import numpy as np

import brainstorm as bs
from brainstorm.data_iterators import Minibatches
from brainstorm.handlers import NumpyHandler
from brainstorm.hooks import Hook, StopAfterEpoch
from brainstorm.scorers import Scorer
from brainstorm.training import (MomentumStepper, NesterovStepper, SgdStepper,
                                 Trainer)
from brainstorm.value_modifiers import (ClipValues, ConstrainL2Norm,
                                        FreezeValues, L1Decay, L2Decay,
                                        MaskValues)
from vmc.core import Violation, check
from vmc.nets import expect_close, gen, make_net

BOUNDS = {
    'quick': '14 modifier configurations x 22 shapes (1-D to 4-D) x 7 value '
             'patterns (ties, zeros, huge, exactly at the limit) x 2 data '
             'types; all ordered lists of <=3 of 9 modifiers on weights and '
             'on gradients; training histories: 3 optimizers x all lists of '
             '<=2 weight modifiers x all lists of <=1 gradient modifiers x '
             '3 batch sizes x 3 epochs'
             '; large shapes (up to 1000 entries, 130 rows)',
    'thorough': 'as quick with all lists of <=4 modifiers and training '
                'with all pairs of gradient modifiers',
}

SHAPES = [(1,), (3,), (7,), (1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (5, 5),
          (1, 1, 1), (2, 3, 2), (3, 1, 2), (1, 2, 3), (4, 2, 2), (2, 2, 2, 2),
          (3, 2, 1, 2), (1, 3, 2, 1), (5, 1, 1, 3), (2, 5), (5, 2), (6, 3),
          (3, 6), (130, 3), (3, 130), (65, 2, 17), (1000,), (33, 3, 2, 9)]


class Ref(object):
    """What a modifier does to (parameters, values)."""

    def __init__(self, kind, *a):
        self.kind, self.a, self.frozen = kind, a, None

    def make(self, shape):
        k, a = self.kind, self.a
        if k == 'l2norm':
            return ConstrainL2Norm(*a)
        if k == 'clip':
            return ClipValues(*a)
        if k == 'mask':
            return MaskValues(self.mask(shape))
        if k == 'freeze':
            return FreezeValues()
        if k == 'freezeto':
            return FreezeValues(self.const(shape))
        if k == 'l1':
            return L1Decay(*a)
        return L2Decay(*a)

    def mask(self, shape):
        if self.a[0] == 'real':
            return gen('mask', shape, 0.25, 2.0)
        i = np.arange(int(np.prod(shape))).reshape(shape)
        return (i % 3 != 1).astype(float)

    def const(self, shape):
        return gen('const', shape)

    def fresh(self):
        return Ref(self.kind, *self.a)

    def __call__(self, p, v):
        k, a = self.kind, self.a
        if k == 'l2norm':
            if v.ndim < 2:
                return v.copy()
            out = np.empty_like(v)
            for i in range(v.shape[0]):
                n = math.sqrt(float((v[i].astype(float) ** 2).sum()))
                out[i] = v[i] * (a[0] / n) if n > a[0] else v[i]
            return out
        if k == 'clip':
            lo, hi = a if a else (-1.0, 1.0)
            return np.array([min(max(x, lo), hi) for x in v.ravel()]).reshape(
                v.shape)
        if k == 'mask':
            return v * self.mask(v.shape)
        if k == 'freeze':
            if self.frozen is None:
                self.frozen = v.copy()
            return self.frozen.copy()
        if k == 'freezeto':
            return self.const(v.shape)
        if k == 'l1':
            return v + a[0] * np.sign(p)
        return v + a[0] * p


SINGLE = [Ref('l2norm', 1.0), Ref('l2norm', 0.3), Ref('l2norm', 5),
          Ref('clip'), Ref('clip', -0.25, 0.5), Ref('clip', 0.1, 0.2),
          Ref('clip', -3, -1), Ref('mask', 'bin'), Ref('mask', 'real'),
          Ref('freeze'), Ref('freezeto'), Ref('l1', 0.1), Ref('l2', 0.2),
          Ref('l1', -1), Ref('l2', 3)]
POOL = [Ref('l2norm', 0.7), Ref('l2norm', 0.3), Ref('clip', -0.4, 0.4),
        Ref('clip', 0.2, 0.9), Ref('mask', 'bin'), Ref('mask', 'real'),
        Ref('freeze'), Ref('freezeto')]
GPOOL = POOL + [Ref('l1', 0.1), Ref('l2', 0.2)]


def patterns(shape):
    n = int(np.prod(shape))
    yield gen('a', shape, -2, 2)
    yield gen('b', shape, -0.1, 0.1)
    yield np.zeros(shape)
    yield (np.arange(n).reshape(shape) % 4 - 1.5)
    yield np.where(np.arange(n).reshape(shape) % 2, 0.0, gen('c', shape))
    # rows exactly at the limit 1.0, and 1e6 larger
    v = np.zeros(shape)
    v.reshape(shape[0], -1)[:, 0] = 1.0
    yield v
    yield v * 1e6 - gen('d', shape) * 1e3


def cases(tier):
    th = tier == 'thorough'
    for i in range(len(SINGLE)):
        for s in range(len(SHAPES)):
            yield dict(k='single', i=i, s=s)
    for which in ('weight', 'gradient'):
        n = len(POOL) if which == 'weight' else len(GPOOL)
        for first in range(n):
            for r in range(1, 5 if th else 4):
                yield dict(k='list', which=which, first=first, r=r)
    nw, ng = len(POOL), len(GPOOL)
    for st in ('sgd', 'momentum', 'nesterov'):
        for w in [()] + [(a,) for a in range(nw)] + \
                list(itertools.product(range(nw), repeat=2)):
            yield dict(k='train', st=st, w=list(w), th=th)
    yield dict(k='repeat')


def apply_single(ref, p, v, dtype):
    h = NumpyHandler(dtype)
    mod = ref.make(v.shape)
    pd, vd = h.allocate(v.shape), h.allocate(v.shape)
    h.set_from_numpy(pd, p)
    h.set_from_numpy(vd, v)
    for rep in range(2):
        if ref.kind in ('l1', 'l2'):
            mod(h, pd, vd)
        else:
            mod(h, vd)
        yield h.get_numpy_copy(pd), h.get_numpy_copy(vd)


def single(case, ctx):
    ref0, shape = SINGLE[case['i']], SHAPES[case['s']]
    for n, v in enumerate(patterns(shape)):
        for dtype, tol in ((np.float64, 1e-12), (np.float32, 2e-6)):
            ref = ref0.fresh()
            p = gen('p', shape) * (np.arange(v.size).reshape(shape) % 3 != 0)
            v1 = v.astype(dtype).astype(float)
            p1 = p.astype(dtype).astype(float)
            exp = v1
            for rep, (pg, vg) in enumerate(apply_single(ref, p, v, dtype)):
                exp = ref(p1, exp)
                scale = max(1.0, np.abs(exp).max())
                expect_close(vg / scale, exp / scale, '%s%r on shape %s, '
                             'pattern %d, application %d' %
                             (ref.kind, ref.a, shape, n, rep + 1), tol)
                check(np.array_equal(pg, p.astype(dtype)),
                      '{} changed the parameters', ref.kind)
                if ref.kind in ('l2norm', 'clip', 'freeze', 'freezeto') and \
                        rep == 0:
                    first = vg
                elif rep == 1 and ref.kind in ('l2norm', 'clip', 'freeze',
                                               'freezeto'):
                    expect_close(vg, first, '%s is not idempotent' %
                                 ref.kind, tol)
                ctx.step()
            ctx.state(case['i'], shape, n, dtype.__name__)
            ctx.outcome(np.round(exp, 6).tobytes())
    ctx.trace()


def fixed(p):
    spec = [
        ['Input', 'Input', {'out_shapes': {'default': [3],
                                           'targets': [2]}}, {}],
        ['a', 'FullyConnected', {'size': 4, 'activation': 'tanh'},
         {'default': [['Input', 'outputs.default']]}],
        ['b', 'FullyConnected', {'size': 2, 'activation': 'linear'},
         {'default': [['a', 'outputs.default']]}],
        ['se', 'SquaredError', {}, {'default': [['b', 'outputs.default']],
                                    'targets': [['Input',
                                                 'outputs.targets']]}],
        ['loss', 'Loss', {}, {'default': [['se', 'outputs.loss']]}],
    ]
    net = make_net(spec)
    for l in 'ab':
        for n in ('W', 'bias'):
            v = net.buffer[l].parameters[n]
            net.handler.set_from_numpy(v, gen((p, l, n), v.shape))
    return net


VIEWS = [('a', 'W'), ('a', 'bias'), ('b', 'W'), ('b', 'bias')]


def params(net):
    return {(l, n): net.get('%s.parameters.%s' % (l, n)) for l, n in VIEWS}


def grads(net):
    return {(l, n): net.get('%s.gradients.%s' % (l, n)) for l, n in VIEWS}


def chain(refs, p, v):
    for r in refs:
        v = r(p, v)
    return v


def listed(case, ctx):
    pool = POOL if case['which'] == 'weight' else GPOOL
    net = fixed('list')
    x, t = gen('x', (2, 3, 3)), gen('t', (2, 3, 2))
    twin = fixed('list')
    twin.provide_external_data({'default': x, 'targets': t})
    twin.forward_pass(training_pass=True)
    twin.backward_pass()
    g0, p0 = grads(twin), params(twin)
    for rest in itertools.product(range(len(pool)), repeat=case['r'] - 1):
        ids = (case['first'],) + rest
        for target in VIEWS:
            refs = [pool[i].fresh() for i in ids]
            shape = net.buffer[target[0]].parameters[target[1]].shape
            ms = [r.make(shape) for r in refs]
            arg = {target[0]: {target[1]: ms if len(ms) > 1 else ms[0]}}
            for v in VIEWS:
                net.handler.set_from_numpy(
                    net.buffer[v[0]].parameters[v[1]], p0[v])
            net.provide_external_data({'default': x, 'targets': t})
            if case['which'] == 'weight':
                net.set_weight_modifiers(arg)
                exp = dict(p0)
                for rep in range(2):
                    net.apply_weight_modifiers()
                    exp[target] = chain(refs, exp[target], exp[target])
                    compare(params(net), exp, 'parameter', ids, rep)
            else:
                net.set_gradient_modifiers(arg)
                for rep in range(2):
                    net.forward_pass(training_pass=True)
                    net.backward_pass()
                    exp = dict(g0)
                    exp[target] = chain(refs, p0[target], g0[target])
                    compare(grads(net), exp, 'gradient', ids, rep)
                    compare(params(net), p0, 'parameter', ids, rep)
            ctx.step(2)
            ctx.state(case['which'], ids, target)
    ctx.trace()


def compare(got, exp, what, ids, rep):
    for k in exp:
        expect_close(got[k], exp[k], '%s %s.%s with modifiers %r (round %d)' %
                     (what, k[0], k[1], ids, rep + 1), 1e-10)


class Spy(Hook):
    seen = ()

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.seen.append((epoch_nr, update_nr, params(net)))


class SpyScorer(Scorer):
    seen = ()

    def __call__(self, true_labels, predicted, mask=None):
        self.seen.append(predicted.copy())
        return 0.0


def train(case, ctx):
    x, t = gen('x', (2, 5, 3)), gen('t', (2, 5, 2))
    gl = [()] + [(a,) for a in range(len(GPOOL))]
    if case['th']:
        gl += list(itertools.combinations(range(len(GPOOL)), 2))
    for g in gl:
        for bs_ in (1, 2, 5):
            if not case['th'] and g and bs_ == 1:
                continue
            net = fixed('train')
            twin = fixed('train')
            wrefs = {v: [POOL[i].fresh() for i in case['w']]
                     for v in (('a', 'W'), ('b', 'bias'))}
            grefs = {v: [GPOOL[i].fresh() for i in g]
                     for v in (('b', 'W'), ('a', 'W'))}

            def arg(refs):
                out = {}
                for (l, n), rs in refs.items():
                    if rs:
                        shape = net.buffer[l].parameters[n].shape
                        out.setdefault(l, {})[n] = [r.make(shape)
                                                    for r in rs]
                return out
            net.set_weight_modifiers(arg(wrefs))
            net.set_gradient_modifiers(arg(grefs))
            lr, m = 0.3, 0.6
            st = {'sgd': lambda: SgdStepper(lr),
                  'momentum': lambda: MomentumStepper(lr, m),
                  'nesterov': lambda: NesterovStepper(
                      lr, m, scale_learning_rate=False)}[case['st']]()
            tr = Trainer(st, verbose=False)
            up, ep = Spy('up', 'update'), Spy('ep', 'epoch')
            up.seen, ep.seen = [], []
            tr.add_hook(up)
            tr.add_hook(ep)
            tr.add_hook(StopAfterEpoch(3))
            sc = SpyScorer(out_name='b.outputs.default')
            sc.seen = []
            tr.train_scorers = [sc]
            tr.train(net, Minibatches(bs_, False, default=x, targets=t))
            # reference trajectory
            p = params(twin)
            vel = {v: np.zeros_like(p[v]) for v in VIEWS}
            trail = [(0, 0, dict(p))]
            preds = []
            u = 0
            for e in range(1, 4):
                for s in range(0, 5, bs_):
                    u += 1
                    if case['st'] == 'nesterov':
                        vel = {v: m * vel[v] for v in VIEWS}
                        p = {v: p[v] + vel[v] for v in VIEWS}
                    for v in VIEWS:
                        twin.handler.set_from_numpy(
                            twin.buffer[v[0]].parameters[v[1]], p[v])
                    twin.provide_external_data(
                        {'default': x[:, s:s + bs_],
                         'targets': t[:, s:s + bs_]})
                    twin.forward_pass(training_pass=True)
                    preds.append(twin.get('b.outputs.default')
                                 .reshape(-1, 2))
                    twin.backward_pass()
                    gr = grads(twin)
                    for v, rs in grefs.items():
                        gr[v] = chain(rs, p[v], gr[v])
                    if case['st'] == 'sgd':
                        p = {v: p[v] - lr * gr[v] for v in VIEWS}
                    elif case['st'] == 'momentum':
                        vel = {v: m * vel[v] - lr * (1 - m) * gr[v]
                               for v in VIEWS}
                        p = {v: p[v] + vel[v] for v in VIEWS}
                    else:
                        vel = {v: vel[v] - lr * gr[v] for v in VIEWS}
                        p = {v: p[v] - lr * gr[v] for v in VIEWS}
                    for v, rs in wrefs.items():
                        p[v] = chain(rs, p[v], p[v])
                    trail.append((e, u, dict(p)))
            what = (case['st'], case['w'], g, bs_)
            check([s[:2] for s in up.seen] == [s[:2] for s in trail],
                  'updates seen by hooks')
            for s, r in zip(up.seen, trail):
                compare(s[2], r[2], 'parameter at update %d' % r[1], what, 0)
            ends = [trail[0]] + [[r for r in trail if r[0] == e][-1]
                                 for e in (1, 2, 3)]
            for s, r in zip(ep.seen, ends):
                compare(s[2], r[2], 'parameter at epoch %d' % r[0], what, 0)
            check(len(sc.seen) == len(preds), 'number of scorer calls')
            for a, b in zip(sc.seen, preds):
                expect_close(a, b, 'outputs seen by the scorers %r' %
                             (what,), 1e-9)
            compare(params(net), p, 'final parameter', what, 0)
            ctx.step(u)
            ctx.state(*what)
            ctx.trace()


def run(case, ctx):
    if case['k'] == 'single':
        single(case, ctx)
    elif case['k'] == 'list':
        listed(case, ctx)
    elif case['k'] == 'train':
        train(case, ctx)
    else:
        # every backward pass starts from unmodified gradients; manual calls
        # apply the modifiers once more
        net, twin = fixed('rep'), fixed('rep')
        x, t = gen('x', (1, 4, 3)), gen('t', (1, 4, 2))
        for n in (net, twin):
            n.provide_external_data({'default': x, 'targets': t})
        net.set_gradient_modifiers(default=L2Decay(0.5), a=L1Decay(2.0))
        for ops in itertools.product('fbga', repeat=4):
            net.forward_pass(training_pass=True)
            twin.forward_pass(training_pass=True)
            twin.backward_pass()
            net.backward_pass()
            p = params(net)

            def mod(g):
                return {v: g[v] + (2.0 * np.sign(p[v]) if v[0] == 'a' else
                                   0.5 * p[v]) for v in VIEWS}
            exp = mod(grads(twin))
            for o in ops:
                if o == 'f':
                    net.forward_pass(training_pass=True)
                elif o == 'b':
                    net.backward_pass()
                    exp = mod(grads(twin))
                elif o == 'g':
                    net.apply_gradient_modifiers()
                    exp = mod(exp)
                else:
                    net.apply_weight_modifiers()
                compare(grads(net), exp, 'gradient', ops, 0)
                compare(params(net), p, 'parameter', ops, 0)
                ctx.step()
            ctx.state(ops)
        ctx.trace()
