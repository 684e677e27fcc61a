"""Optimizers follow their update equations on every step."""
import itertools

import numpy as np

from brainstorm.data_iterators import Minibatches
from brainstorm.hooks import Hook, ModifyStepperAttribute, StopAfterEpoch
from brainstorm.training.schedules import (DecreaseAfterEpoch, Exponential,
                                           Linear, MultiStep)
from brainstorm.training.steppers import (ForwardStepper, MomentumStepper,
                                          NesterovStepper, SgdStepper)
from brainstorm.training.trainer import Trainer
from checks.C15 import NETS, data, fresh
from vmc.core import Violation, check
from vmc.nets import expect_close, get_params

BOUNDS = {
    'quick': '7 stepper configurations x all operation sequences of length 4 '
             'over {step on 1 or 3 sequences, change learning rate, change '
             'momentum, restart, evaluate other data, move to another '
             'network}; 5 networks x 7 learning rates x 5 momenta x all '
             'batch-size sequences of length 3 over {1,2,4}; 8 schedules x '
             'timescales x intervals through the trainer; parameters and '
             'losses compared after every operation'
             '; 130 steps of every stepper on every network',
    'thorough': 'as quick with operation sequences of length 5 and '
                'batch-size sequences of length 4',
}

STEPPERS = [('sgd', None), ('mom', True), ('mom', False), ('nest', True),
            ('nest', False), ('fwd', False), ('fwd', True)]
OPS = ['s1', 's3', 'lr', 'mo', 'restart', 'eval', 'other']


def cases(tier):
    th = tier == 'thorough'
    for kind, opt in STEPPERS:
        for net in ('ff', 'rnn'):
            for head in itertools.product(OPS, repeat=2):
                yield dict(k='ops', st=kind, opt=opt, net=net, head=head,
                           n=3 if th else 2)
    for net in sorted(NETS):
        for kind, opt in STEPPERS:
            yield dict(k='grid', net=net, st=kind, opt=opt,
                       n=4 if th else 3)
    for s in range(len(SCHED)):
        for attr in ('learning_rate', 'momentum'):
            for t in ('epoch', 'update'):
                for i in (1, 2):
                    yield dict(k='sched', s=s, attr=attr, t=t, i=i)
    for net in sorted(NETS):
        for kind, opt in STEPPERS:
            yield dict(k='long', net=net, st=kind, opt=opt)
    yield dict(k='defaults')


def make(kind, opt, lr, m):
    if kind == 'sgd':
        return SgdStepper(lr)
    if kind == 'mom':
        return MomentumStepper(lr, m, opt)
    if kind == 'nest':
        return NesterovStepper(lr, m, opt)
    return ForwardStepper(opt)


class Ref(object):
    """The documented update equations, with gradients of a twin network."""

    def __init__(self, kind, opt, lr, m):
        self.kind, self.opt, self.lr, self.m = kind, opt, lr, m

    def start(self, net):
        self.net = net
        self.v = np.zeros_like(net.get('parameters'))

    def run(self, d):
        net, lr, m = self.net, self.lr, self.m
        if self.kind in ('mom', 'nest') and self.opt:
            lr = lr * (1 - m)

        def put(p):
            net.handler.set_from_numpy(net.buffer.parameters, p)
        net.provide_external_data(d)
        if self.kind == 'fwd':
            net.forward_pass(training_pass=self.opt)
            return dict(net.get_loss_values())
        if self.kind == 'nest':
            self.v = m * self.v
            put(net.get('parameters') + self.v)
        net.forward_pass(training_pass=True)
        net.backward_pass()
        g = net.get('gradients')
        p = net.get('parameters')
        if self.kind == 'sgd':
            put(p - lr * g)
        elif self.kind == 'mom':
            self.v = m * self.v - lr * g
            put(p + self.v)
        else:
            self.v = self.v - lr * g
            put(p - lr * g)
        return dict(net.get_loss_values())


def compare(a, b, what):
    expect_close(a.get('parameters'), b.get('parameters'),
                 'parameters after %s' % what, 1e-9)


def batch(net, n, key):
    return data(net, n, ('c16', key))


def long(case, ctx):
    """A long training; every 16 steps the parameters are made equal again
    so that rounding does not add up."""
    net, kind, opt = case['net'], case['st'], case['opt']
    a, b = fresh(net), fresh(net)
    st, ref = make(kind, opt, 0.02, 0.7), Ref(kind, opt, 0.02, 0.7)
    st.start(a)
    ref.start(b)
    for n in range(1, 131):
        d = batch(net, 1 + n % 4, n % 7)
        a.provide_external_data(d)
        st.run()
        want = ref.run(d)
        for x, y in want.items():
            expect_close(a.get_loss_values()[x], y, 'loss', 1e-6)
        expect_close(a.get('parameters'), b.get('parameters'),
                     'parameters after %d steps (%s, %s, %s)' % (
                         n, kind, opt, net), 1e-6)
        if n % 16 == 0:
            b.handler.set_from_numpy(b.buffer.parameters,
                                     a.get('parameters'))
        ctx.step()
        ctx.state('long', net, kind, opt, n)
    ctx.trace()


def run(case, ctx):
    k = case['k']
    if k == 'long':
        return long(case, ctx)
    if k == 'ops':
        net = case['net']
        for rest in itertools.product(OPS, repeat=case['n']):
            ops = tuple(case['head']) + rest
            if not any(o in ('s1', 's3') for o in ops):
                continue
            if case['st'] == 'fwd' and ('lr' in ops or 'mo' in ops):
                continue
            if case['st'] == 'sgd' and 'mo' in ops:
                continue
            play(case, net, ops, ctx)
    elif k == 'grid':
        grid(case, ctx)
    elif k == 'sched':
        sched(case, ctx)
    else:
        check(SgdStepper().learning_rate == 0.1, 'default learning rate')
        for cls in (MomentumStepper, NesterovStepper):
            s = cls()
            check((s.learning_rate, s.momentum, s.scale_learning_rate) ==
                  (0.1, 0.0, True), 'defaults of {}', cls.__name__)
            for bad in (None, 1, 'yes'):
                try:
                    cls(0.1, 0.5, bad)
                except AssertionError:
                    ctx.step()
                else:
                    raise Violation('scale_learning_rate=%r accepted' % (
                        bad,))
        check(ForwardStepper().use_training_pass is False,
              'ForwardStepper default')
        ctx.trace()
        ctx.state('defaults')


_pool = {}


def borrow(net, tag):
    """A network from a pool, brought into its initial situation."""
    if (net, tag) not in _pool:
        n = fresh(net)
        _pool[net, tag] = n, n.get('parameters')
    n, p = _pool[net, tag]
    n.handler.set_from_numpy(n.buffer.parameters, p.copy())
    return n


def play(case, net, ops, ctx):
    lr, m = 0.3, 0.6
    real = [borrow(net, 'a'), borrow(net, 'b')]
    twin = [borrow(net, 'c'), borrow(net, 'd')]
    cur = 0
    st = make(case['st'], case['opt'], lr, m)
    ref = Ref(case['st'], case['opt'], lr, m)
    st.start(real[0])
    ref.start(twin[0])
    for n, o in enumerate(ops):
        if o in ('s1', 's3'):
            d = batch(net, int(o[1]), n)
            real[cur].provide_external_data(d)
            st.run()
            want = ref.run(d)
            got = dict(real[cur].get_loss_values())
            check(set(got) == set(want), 'loss names')
            for x in want:
                expect_close(got[x], want[x], 'loss %s in step %d of %s' % (
                    x, n, list(ops)), 1e-9)
        elif o == 'lr':
            st.learning_rate = ref.lr = 0.3 / (n + 2)
        elif o == 'mo':
            st.momentum = ref.m = 0.9 - 0.1 * n
        elif o == 'restart':
            st.start(real[cur])
            ref.start(twin[cur])
        elif o == 'eval':
            real[cur].provide_external_data(batch(net, 5, 'e'))
            real[cur].forward_pass()
        else:
            cur = 1 - cur
            st.start(real[cur])
            ref.start(twin[cur])
        for a, b in zip(real, twin):
            compare(a, b, '%s (%s %s)' % (list(ops[:n + 1]), case['st'],
                                          case['opt']))
        ctx.step()
    ctx.state(case['st'], case['opt'], net, ops)
    ctx.outcome(case['st'], case['opt'],
                np.round(real[0].get('parameters'), 6).tobytes())
    ctx.trace()


def grid(case, ctx):
    net, kind, opt = case['net'], case['st'], case['opt']
    lrs = (0.0, 0.001, 0.1, 1.0, 2.5, -0.2, 1) if kind != 'fwd' else (None,)
    ms = (0.0, 0.5, 0.9, 1.0, 0) if kind in ('mom', 'nest') else (None,)
    for lr in lrs:
        for m in ms:
            for seq in itertools.product((1, 2, 4), repeat=case['n']):
                a, b = fresh(net), fresh(net)
                p0 = a.get('parameters')
                st, ref = make(kind, opt, lr, m), Ref(kind, opt, lr, m)
                st.start(a)
                ref.start(b)
                for n, bsz in enumerate(seq):
                    d = batch(net, bsz, n)
                    a.provide_external_data(d)
                    r = st.run()
                    want = ref.run(d)
                    for x, y in want.items():
                        expect_close(a.get_loss_values()[x], y, 'loss', 1e-9)
                        if kind == 'fwd':
                            expect_close(r[x], y, 'returned loss', 1e-9)
                    compare(a, b, 'steps on batches %s (%s, %s, lr=%r, m=%r, '
                            '%s)' % (seq[:n + 1], kind, opt, lr, m, net))
                    ctx.step()
                if kind == 'fwd' and not opt:
                    check(np.array_equal(p0, a.get('parameters')),
                          'evaluation-only stepping changed parameters')
                ctx.state(net, kind, opt, lr, m, seq)
        ctx.trace()


SCHED = [
    (lambda: Linear(0.2, 0.05, 3),
     lambda e, u, c, i: 0.05 if c // i > 3 else 0.2 - 0.05 * (c // i)),
    (lambda: Linear(0.1, 0.4, 2),
     lambda e, u, c, i: 0.4 if c // i > 2 else 0.1 + 0.15 * (c // i)),
    (lambda: Exponential(0.4, 0.5),
     lambda e, u, c, i: 0.4 * 0.5 ** (c // i)),
    (lambda: Exponential(0.4, 0.5, minimum=0.12),
     lambda e, u, c, i: max(0.12, 0.4 * 0.5 ** (c // i))),
    (lambda: Exponential(0.1, 1.5, maximum=0.3),
     lambda e, u, c, i: min(0.3, 0.1 * 1.5 ** (c // i))),
    (lambda: MultiStep(0.3, [2, 3], [0.2, 0.1]),
     lambda e, u, c, i: 0.3 if c < 2 else 0.2 if c < 3 else 0.1),
    (lambda: DecreaseAfterEpoch(0.3, 2),
     lambda e, u, c, i: 0.3 * 2 / max(e + 1, 2)),
    (lambda: DecreaseAfterEpoch(0.3, 1),
     lambda e, u, c, i: 0.3 / max(e + 1, 1)),
]


class Spy(Hook):
    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.seen.append(get_params(net))


def sched(case, ctx):
    mk, f = SCHED[case['s']]
    t, i, attr = case['t'], case['i'], case['attr']
    if case['s'] == 5 and i != 1:
        return
    for kind, opt in STEPPERS[:5]:
        if attr == 'momentum' and kind == 'sgd':
            continue
        for net in ('ff', 'hw'):
            for b in (2, 3):
                a, c = fresh(net), fresh(net)
                st = make(kind, opt, 0.2, 0.5)
                ref = Ref(kind, opt, 0.2, 0.5)
                tr = Trainer(st, verbose=False)
                tr.add_hook(ModifyStepperAttribute(mk(), attr, timescale=t,
                                                   interval=i))
                spy = Spy('spy', 'update')
                spy.seen = []
                tr.add_hook(spy)
                tr.add_hook(StopAfterEpoch(6))
                d = batch(net, 5, 'train')
                tr.train(a, Minibatches(b, False, **d))
                ref.start(c)
                name = {'learning_rate': 'lr', 'momentum': 'm'}[attr]
                u = 0
                setattr(ref, name, f(0, 0, 0, i))
                trail = [get_params(c)]
                for e in range(1, 7):
                    for s in range(0, 5, b):
                        u += 1
                        ref.run({q: v[:, s:s + b] for q, v in d.items()})
                        trail.append(get_params(c))
                        if t == 'update' and u % i == 0:
                            setattr(ref, name, f(e, u, u, i))
                    if t == 'epoch' and e % i == 0:
                        setattr(ref, name, f(e, u, e, i))
                what = 'schedule %d of %s, %s hook every %d, %s %s' % (
                    case['s'], attr, t, i, kind, opt)
                check(len(trail) == len(spy.seen), '{}: {} updates instead '
                      'of {}', what, len(spy.seen) - 1, len(trail) - 1)
                for n, (x, y) in enumerate(zip(spy.seen, trail)):
                    for q in y:
                        expect_close(x[q], y[q], '%s: parameter %s after '
                                     'update %d' % (what, q, n), 1e-9)
                ctx.step(u)
                ctx.state(case['s'], attr, t, i, kind, opt, net, b)
    ctx.trace()
