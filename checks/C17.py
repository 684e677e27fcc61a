"""Schedules give the documented value at every point of training."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from brainstorm.training.schedules import (DecreaseAfterEpoch, Exponential,
                                           Linear, MultiStep)
from vmc.core import Violation, check

BOUNDS = {
    'quick': 'epochs 0..12 x updates 0..40 x both timescales x intervals '
             '1..6 x Linear (6x6 end values x 1..8 changes), Exponential (5 '
             'initial values x 7 factors x 16 limit pairs), MultiStep (all '
             'step lists of length <=3 from 1..6), DecreaseAfterEpoch (T=1..8 '
             'x 5 initial values); each point queried in forward, backward '
             'and interleaved order'
             '; points up to 2^31 for 14 schedules with up to a million '
             'changes',
    'thorough': 'epochs 0..40 x updates 0..200 x intervals 1..12, step lists '
                'of length <=4 from 1..8',
}


FAR = [50, 63, 64, 99, 100, 101, 127, 128, 129, 255, 256, 999, 1000, 1001,
       32767, 32768, 65536, 10 ** 6, 2 ** 31]


def cases(tier):
    th = tier == 'thorough'
    far = dict(far=1)
    for a, b in ((0.1, 0.001), (0.0, 1.0), (-1, 2)):
        for n in (20, 100, 1000, 10 ** 6):
            yield dict(k='linear', a=a, b=b, n=n, **far)
    for f in (1.0, 0.999999, 1.0000001):
        yield dict(k='exp', a=0.3, f=f, **far)
    for steps in ((64, 100), (100, 1000, 65536), (10 ** 6,)):
        yield dict(k='multi', steps=steps, **far)
    for T in (20, 100, 1000, 10 ** 6):
        yield dict(k='dec', a=0.5, T=T, **far)
    box = dict(E=40, U=200, I=12) if th else dict(E=12, U=40, I=6)
    vals = (0.0, 0.1, 1.0, -0.5, 0.9, 2)
    for a in vals:
        for b in vals:
            yield dict(k='linear', a=a, b=b, n=16 if th else 8, **box)
    for a in (1.0, 0.1, -2.0, 0.0, 3):
        for f in (0.9, 0.5, 1.0, 1.1, 2.0, 0.0, 3):
            yield dict(k='exp', a=a, f=f, **box)
    top, ln = (8, 4) if th else (6, 3)
    for n in range(ln + 1):
        for steps in itertools.combinations(range(1, top + 1), n):
            yield dict(k='multi', steps=steps, **box)
    for a in (0.05, 1.0, -0.3, 0.0, 2):
        for T in range(1, 20 if th else 9):
            yield dict(k='dec', a=a, T=T, **box)
    yield dict(k='errors')


def points(case):
    if 'far' in case:
        for t in ('epoch', 'update'):
            for i in (1, 2, 10, 100, 1000):
                for u in FAR:
                    for e in sorted({0, 1, u // 100, u // 7, u - 1, u}):
                        yield e, u, t, i
        return
    for t in ('epoch', 'update'):
        for i in range(1, case['I'] + 1):
            for e in range(case['E'] + 1):
                for u in range(e, case['U'] + 1, 1 if e < 3 else 3):
                    yield e, u, t, i


def ask(s, e, u, t, i, how):
    if how:
        return s(epoch_nr=e, update_nr=u, timescale=t, interval=i, net=None,
                 stepper=None, logs={})
    return s(e, u, t, i, None, None, {})


def sweep(case, ctx, make, formula, what, units=False):
    pts = [p for p in points(case) if not units or p[3] == 1]
    one, two = make(), make()
    want = [formula(e, u, e if t == 'epoch' else u, i)
            for e, u, t, i in pts]
    n = len(pts)
    order = list(range(n))
    mixed = [j for p in zip(order[:n // 2], reversed(order)) for j in p]
    for s, seq in ((one, order), (one, order[::-1]), (two, mixed)):
        for j in seq:
            e, u, t, i = pts[j]
            got = ask(s, e, u, t, i, j % 2)
            w = want[j]
            ok = got == w or abs(got - w) <= 1e-12 * (1 + abs(w))
            check(ok, '{} at epoch {}, update {} ({}, interval {}) is {!r} '
                  'instead of {!r}', what, e, u, t, i, got, w)
    ctx.step(3 * n)
    ctx.state(what)
    ctx.outcome(tuple(want[:200]))


def run(case, ctx):
    k = case['k']
    if k == 'linear':
        a, b = case['a'], case['b']
        for n in [case['n']] if 'far' in case else range(1, case['n'] + 1):
            def f(e, u, c, i):
                m = c // i
                return b if m >= n else a + (b - a) * m / float(n)
            sweep(case, ctx, lambda: Linear(a, b, n), f,
                  'Linear(%r, %r, %r)' % (a, b, n))
    elif k == 'exp':
        a, q = case['a'], case['f']
        for lo in (None, -1.0, 0.0, 0.3):
            for hi in (None, 0.5, 1.0, 4.0):
                kw = {}
                if lo is not None:
                    kw['minimum'] = lo
                if hi is not None:
                    kw['maximum'] = hi

                def f(e, u, c, i):
                    v = float(a) * float(q) ** (c // i)
                    if lo is not None and v < lo:
                        v = lo
                    if hi is not None and v > hi:
                        v = hi
                    return v
                sweep(case, ctx, lambda: Exponential(a, q, **kw), f,
                      'Exponential(%r, %r, %r)' % (a, q, kw))
    elif k == 'multi':
        steps = list(case['steps'])
        for init, vals in ((1.0, [0.5, 0.1, 2.0, 7.0]),
                           (0.0, [1.0, -1.0, 0.0, 3.0])):
            vals = vals[:len(steps)]
            keep = list(steps), list(vals)

            def f(e, u, c, i):
                v = init
                for st, x in zip(steps, vals):
                    if c >= st:
                        v = x
                return v
            sweep(case, ctx, lambda: MultiStep(init, steps, vals), f,
                  'MultiStep(%r, %r, %r)' % (init, steps, vals), units=True)
            check((steps, vals) == keep, 'MultiStep changed its arguments')
            s = MultiStep(init, steps, vals)
            for i in (2, 3):
                for e, u, t in ((0, 0, 'epoch'), (4, 4, 'update')):
                    try:
                        ask(s, e, u, t, i, 0)
                    except AssertionError:
                        ctx.step()
                    else:
                        raise Violation('MultiStep accepted interval %d' % i)
    elif k == 'dec':
        a, T = case['a'], case['T']

        def f(e, u, c, i):
            return float(a) if e + 1 <= T else float(a) * T / (e + 1)
        sweep(case, ctx, lambda: DecreaseAfterEpoch(a, T), f,
              'DecreaseAfterEpoch(%r, %r)' % (a, T))
    else:
        for st, v in (([1], []), ([], [1.0]), ([1, 2], [0.1])):
            try:
                MultiStep(1.0, st, v)
            except AssertionError:
                ctx.step()
            else:
                raise Violation('MultiStep accepted %d steps and %d values' %
                                (len(st), len(v)))
        ctx.state('errors')
    ctx.trace()
