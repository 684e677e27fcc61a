"""Stopping criteria stop exactly when documented."""
import itertools
import os
import signal

import numpy as np

from brainstorm.data_iterators import Minibatches
from brainstorm.hooks import (EarlyStopper, Hook, StopAfterEpoch,
                              StopAfterThresholdReached, StopOnNan,
                              StopOnSigQuit)
from brainstorm.training.steppers import ForwardStepper
from brainstorm.training.trainer import Trainer
from vmc.core import Violation, check
from checks.C13 import build

BOUNDS = {
    'quick': 'all log histories of length 6 over 4 values (NaN included '
             'where stated) x patience 1..4 / 5 thresholds x min/max; '
             'histories of length 4 x {epoch,update} x logger interval 1..2 x '
             'stopper interval 1..3 x value logged before training or not x '
             '1..3 batches; NaN/inf in 2 logs, parameters or training loss at '
             'every epoch 0..4 x all options; SIGQUIT at every point of a '
             'training x timescale x interval x restarts; all pairs of '
             'stoppers'
             '; alphabets of values that differ by 1e-12, 1e-300 or '
             '1e300; patience up to 101 on histories of up to 245 epochs',
    'thorough': 'as quick with histories of length 8 over 4 values and '
                'length 6 over 5 values',
}
NAN, INF = float('nan'), float('inf')


def cases(tier):
    th = tier == 'thorough'
    n = 8 if th else 6
    for head in itertools.product((-1.5, 0.0, 0.25, 2.0), repeat=3):
        for crit in ('min', 'max'):
            yield dict(k='early', head=head, rest=n - 3, crit=crit,
                       alpha=(-1.5, 0.0, 0.25, 2.0))
    for head in itertools.product(('n', 0.0, 0.25, 2.0), repeat=3):
        for crit in ('min', 'max'):
            yield dict(k='thr', head=head, rest=n - 3, crit=crit,
                       alpha=('n', 0.0, 0.25, 2.0))
    for head in itertools.product((-INF, 1.0, INF), repeat=2):
        for crit in ('min', 'max'):
            yield dict(k='early', head=head, rest=2, crit=crit,
                       alpha=(-INF, 1.0, INF))
            yield dict(k='thr', head=head, rest=2, crit=crit,
                       alpha=(-INF, 1.0, INF))
    # values that hardly differ, and tiny or huge ones
    for alpha in ((1.0, 1 - 1e-12, 1 + 1e-12), (0.0, 1e-300, -1e-300),
                  (1e300, 1e-9, 2e300)):
        for head in itertools.product(alpha, repeat=2):
            for crit in ('min', 'max'):
                yield dict(k='early', head=head, rest=2, crit=crit,
                           alpha=alpha)
                yield dict(k='thr', head=head, rest=2, crit=crit,
                           alpha=alpha)
    for p in (5, 6, 7, 10, 20, 50, 99, 100, 101):
        for crit in ('min', 'max'):
            yield dict(k='long', p=p, crit=crit)
    if th:
        for head in itertools.product((0.0, 1.0, 2.0, 3.0, 4.0), repeat=2):
            for crit in ('min', 'max'):
                yield dict(k='early', head=head, rest=4, crit=crit,
                           alpha=(0.0, 1.0, 2.0, 3.0, 4.0))
    for what in ('early', 'thr'):
        for t in ('epoch', 'update'):
            for li in (1, 2):
                for si in (1, 2, 3):
                    for N in (1, 2, 3):
                        for pre in (False, True):
                            yield dict(k='scale', what=what, t=t, li=li,
                                       si=si, N=N, pre=pre)
    for params in (False, True):
        for loss in (False, True):
            for form in ('none', 'str', 'list', 'tuple', 'two'):
                for t in ('epoch', 'update'):
                    yield dict(k='nan', params=params, loss=loss, form=form,
                               t=t)
    for t in ('epoch', 'update'):
        for i in (1, 2, 3):
            for first in (False, True):
                yield dict(k='quit', t=t, i=i, first=first)
    yield dict(k='quit2')
    yield dict(k='pairs')
    yield dict(k='args')


class Logger(Hook):
    """Logs a given history; ends training when it is used up."""

    def __init__(self, values, nested=True, pre=None, **kw):
        super(Logger, self).__init__(**kw)
        self.values, self.pos, self.pre = list(values), 0, pre
        self.nested = nested
        self.log = []

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if epoch_nr == 0:
            v = self.pre
        else:
            if self.pos == len(self.values):
                raise StopIteration()
            v = self.values[self.pos]
            self.pos += 1
        if v is None:
            return None
        self.log.append(v)
        return {'a': {'b': v}, 'other': -v} if self.nested else v


class Probe(Hook):
    def __init__(self, events, timescale='epoch', interval=1, name=None):
        super(Probe, self).__init__(name, timescale, interval)
        self.events = events

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.events.append((epoch_nr, update_nr))


_cache = {}


def setup(N=1, b=1):
    if (N, b) not in _cache:
        net, tr, it = build([], N, b, 0)
        _cache[N, b] = net, it
    net, it = _cache[N, b]
    tr = Trainer(ForwardStepper(), verbose=False)
    return net, tr, it


def early_stops(log, patience, crit):
    """Would documented early stopping stop now?  (no improvement over the
    best value for `patience` log updates)"""
    best, when = None, None
    for i, v in enumerate(log):
        if best is None or (v < best if crit == 'min' else v > best):
            best, when = v, i
    return len(log) - 1 - when >= patience


def thr_stops(log, thr, crit):
    return any((v <= thr) if crit == 'min' else (v >= thr) for v in log)


def real(v):
    return NAN if v == 'n' else v


def run(case, ctx):
    k = case['k']
    if k in ('early', 'thr'):
        opts = (1, 2, 3, 4) if k == 'early' else (-1.0, 0.0, 0.25, 1.0, 2.0)
        f = early_stops if k == 'early' else thr_stops
        crit = case['crit']
        for rest in itertools.product(case['alpha'], repeat=case['rest']):
            hist = [real(v) for v in tuple(case['head']) + rest]
            for o in opts:
                net, tr, it = setup()
                lg = Logger(hist, name='mon')
                tr.add_hook(lg)
                cls = EarlyStopper if k == 'early' else \
                    StopAfterThresholdReached
                tr.add_hook(cls('mon.a.b', o, crit))
                tr.train(net, it)
                want = next((i + 1 for i in range(len(hist))
                             if f(hist[:i + 1], o, crit)), len(hist) + 1)
                check(tr.current_epoch_nr == want,
                      '{}({!r}, {!r}) on the log {} stopped after epoch {}, '
                      'expected {}', cls.__name__, o, crit, hist,
                      tr.current_epoch_nr, want)
                ctx.step(want)
                ctx.outcome(k, want, len(hist))
            ctx.state(k, crit, repr(hist))
        ctx.trace()
    elif k == 'long':
        p, crit = case['p'], case['crit']
        s = 1.0 if crit == 'min' else -1.0
        for first in (0, 1, 3, 12, 40):
            for gap in (None, 1, p - 1, p, p + 1):
                # better until `first`, worse afterwards, better once more
                hist = [s * (100.0 - i) for i in range(first + 1)] + \
                    [s * (1000.0 - i) for i in range(2 * p + 3)]
                if gap is not None:
                    hist[first + gap] = s * 1.0
                net, tr, it = setup()
                tr.add_hook(Logger(hist, name='mon'))
                tr.add_hook(EarlyStopper('mon.a.b', p, crit))
                tr.train(net, it)
                want = next(i + 1 for i in range(len(hist))
                            if early_stops(hist[:i + 1], p, crit))
                check(tr.current_epoch_nr == want, 'EarlyStopper with '
                      'patience {} ({}) stopped after epoch {}, expected {}: '
                      'best at {} and {} later', p, crit,
                      tr.current_epoch_nr, want, first + 1, gap)
                ctx.step(want)
            ctx.state('long', p, crit, first)
        ctx.trace()
    elif k == 'scale':
        t, li, si, N = case['t'], case['li'], case['si'], case['N']
        for hist in itertools.product((0.0, 1.0, 2.0), repeat=4):
            for crit in ('min', 'max'):
                for o in (1, 2):
                    net, tr, it = setup(N)
                    pre = 1.0 if case['pre'] else None
                    lg = Logger(hist, name='mon', timescale=t, interval=li,
                                pre=pre)
                    tr.add_hook(lg)
                    if case['what'] == 'early':
                        s = EarlyStopper('mon.a.b', patience=o,
                                         criterion=crit, timescale=t,
                                         interval=si)
                        f = early_stops
                    else:
                        o -= 1
                        s = StopAfterThresholdReached(
                            'mon.a.b', threshold=o, criterion=crit,
                            timescale=t, interval=si)
                        f = thr_stops
                    tr.add_hook(s)
                    # reference
                    log, pos, now, err = [], 0, 0, None
                    if pre is not None:
                        log.append(pre)
                    stop = bool(log) and f(log, o, crit)
                    while not stop:
                        now += 1
                        if now % li == 0:
                            if pos == len(hist):
                                stop = True
                            else:
                                log.append(hist[pos])
                                pos += 1
                        if now % si == 0:
                            if not log:
                                err = KeyError
                                break
                            stop |= f(log, o, crit)
                    what = '%s(%r, %r, %s, %d) with a logger of interval ' \
                        '%d, %s logged %s' % (
                            type(s).__name__, o, crit, t, si, li,
                            list(hist), '(%r before training)' % pre)
                    try:
                        import contextlib
                        import io
                        with contextlib.redirect_stderr(io.StringIO()), \
                                contextlib.redirect_stdout(io.StringIO()):
                            tr.train(net, it)
                    except KeyError:
                        check(err, '{}: KeyError', what)
                        continue
                    check(not err, '{}: stopped although nothing was logged '
                          'under that name', what)
                    got = (tr.current_epoch_nr if t == 'epoch'
                           else tr.current_update_nr)
                    check(got == now, '{}: stopped at {} {}, expected {}',
                          what, t, got, now)
                    ctx.step(now)
            ctx.state(case['what'], t, li, si, N, case['pre'], hist)
        ctx.trace()
    elif k == 'nan':
        nan_case(case, ctx)
    elif k == 'quit':
        quit_case(case, ctx)
    elif k == 'quit2':
        quit_restart(ctx)
    elif k == 'pairs':
        mk = [lambda: StopAfterEpoch(2), lambda: StopAfterEpoch(3, name='b'),
              lambda: EarlyStopper('mon.a.b', 1, 'min'),
              lambda: EarlyStopper('mon.a.b', 2, 'max', name='m'),
              lambda: StopAfterThresholdReached('mon.a.b', 2.0, 'max'),
              lambda: StopAfterThresholdReached('mon.a.b', 0.0, name='n'),
              lambda: StopOnNan(['mon.a.b'])]
        rf = [lambda h: len(h) >= 2, lambda h: len(h) >= 3,
              lambda h: early_stops(h, 1, 'min'),
              lambda h: early_stops(h, 2, 'max'),
              lambda h: thr_stops(h, 2.0, 'max'),
              lambda h: thr_stops(h, 0.0, 'min'),
              lambda h: not np.all(np.isfinite(h))]
        for hist in itertools.product((0.0, 1.0, 2.0), repeat=4):
            for a, b in itertools.permutations(range(len(mk)), 2):
                net, tr, it = setup()
                tr.add_hook(Logger(hist, name='mon'))
                ev = []
                tr.add_hook(mk[a]())
                tr.add_hook(mk[b]())
                tr.add_hook(Probe(ev))
                tr.train(net, it)
                want = next((i + 1 for i in range(4)
                             if rf[a](hist[:i + 1]) or rf[b](hist[:i + 1])),
                            5)
                check(tr.current_epoch_nr == want, 'stoppers {} and {} on {} '
                      'stopped at {}, expected {}', a, b, hist,
                      tr.current_epoch_nr, want)
                check(ev == [(e, e) for e in range(want + 1)], 'a hook '
                      'behind two stoppers was called at {}', ev)
                ctx.step(want)
            ctx.state('pairs', hist)
        ctx.trace()
    else:
        for cls in (lambda c: EarlyStopper('x', 1, c),
                    lambda c: StopAfterThresholdReached('x', 1, c)):
            for c in ('mini', 'Min', '', None, 'minmax'):
                try:
                    cls(c)
                except ValueError:
                    ctx.step()
                else:
                    raise Violation('criterion %r was accepted' % (c,))
        e = EarlyStopper('x')
        check((e.patience, e.criterion, e.timescale, e.interval) ==
              (1, 'min', 'epoch', 1), 'defaults of EarlyStopper')
        e = StopAfterThresholdReached('x', 3)
        check((e.threshold, e.criterion, e.timescale, e.interval) ==
              (3, 'min', 'epoch', 1), 'defaults of the threshold stop')
        ctx.trace()
        ctx.state('args')


class Spoil(Hook):
    """Puts bad values somewhere at a given call."""

    def __init__(self, what, when, bad, data, **kw):
        super(Spoil, self).__init__(**kw)
        self.what, self.when, self.bad, self.data = what, when, bad, data
        self.n = 0

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        now = self.n
        self.n += 1
        if now == self.when and self.what == 'params':
            p = net.get('parameters')
            p[1:] = self.bad
            net.handler.set_from_numpy(net.buffer.parameters, p)
        if now == self.when and self.what == 'loss':
            self.data[0, 0, 0] = self.bad
        a = b = 1.0
        if now == self.when:
            if self.what == 'log0':
                a = self.bad
            elif self.what == 'log1':
                b = self.bad
        return {'x': {'y': a}, 'z': b}


def nan_case(case, ctx):
    t = case['t']
    arg = {'none': (), 'str': 'sp.x.y', 'list': ['sp.x.y'],
           'tuple': ('sp.x.y',), 'two': ['sp.x.y', 'sp.z']}[case['form']]
    for what, bad in itertools.product(
            ('none', 'params', 'loss', 'log0', 'log1'),
            (NAN, INF, -INF, 1e308, -1e308)):
        # huge but finite values are no reason to stop
        huge = abs(bad) == 1e308
        if not huge or what[:3] == 'log' or what == 'params' and \
                not case['loss']:
            for when in range(0, 4):
                for interval in (1, 2):
                    net, tr, _ = build([], 2, 1, 0)
                    tr = Trainer(ForwardStepper(), verbose=False)
                    x = np.ones((1, 2, 1))
                    it = Minibatches(1, False, default=x.copy(), targets=x)
                    tr.add_hook(Spoil(what, when, bad, x, name='sp',
                                      timescale=t))
                    tr.add_hook(StopOnNan(
                        arg, check_parameters=case['params'],
                        check_training_loss=case['loss'], timescale=t,
                        interval=interval))
                    tr.add_hook(StopAfterEpoch(5))
                    tr.train(net, it)
                    # first call at which the criterion holds
                    seen = None
                    if huge:
                        pass
                    elif what == 'params':
                        if case['params']:
                            seen = when
                        if case['loss']:
                            # bias is bad from then on: losses of the epochs
                            # after it
                            s = loss_seen(t, when)
                            seen = s if seen is None else min(seen, s)
                    elif what == 'loss':
                        if case['loss']:
                            # first sequence of each epoch is bad
                            s = loss_seen(t, when, first_only=True)
                            seen = s
                    elif what == 'log0':
                        if case['form'] != 'none':
                            seen = when
                    elif what == 'log1':
                        if case['form'] == 'two':
                            seen = when
                    last = 5 if t == 'epoch' else 10
                    want = last
                    if seen is not None:
                        c = [n for n in range(last + 1)
                             if n % interval == 0 and n >= seen]
                        if c:
                            want = min(last, c[0])
                    got = tr.current_epoch_nr if t == 'epoch' else \
                        tr.current_update_nr
                    check(got == want, 'StopOnNan({!r}, {}, {}, {}, {}) with '
                          '{} in {} from call {} on stopped at {} {}, '
                          'expected {}', arg, case['params'], case['loss'],
                          t, interval, bad, what, when, t, got, want)
                    ctx.step(got)
                    ctx.state(repr(case), what, repr(bad), when, interval)
                    ctx.outcome(want)
    ctx.trace()


def loss_seen(t, when, first_only=False):
    """First call number at which a bad loss is in the training log, if the
    data / parameters turned bad at call `when`."""
    if t == 'epoch':
        return when + 1
    # two updates per epoch; the training loss is logged at the end of the
    # epoch and thus seen by update hooks from the next update on
    epoch = when // 2 + 1          # epoch of the next update
    if first_only and when % 2 == 1:
        epoch += 1                 # the first sequence was already used
    return 2 * epoch + 1


class Kick(Hook):
    def __init__(self, when, **kw):
        super(Kick, self).__init__(**kw)
        self.when = when

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if update_nr == self.when:
            os.kill(os.getpid(), signal.SIGQUIT)


def quit_case(case, ctx):
    old = signal.signal(signal.SIGQUIT, signal.SIG_IGN)
    try:
        t, i = case['t'], case['i']
        nb, epochs = 2, 5
        for when in range(0, nb * epochs + 1):
            net, tr, it = setup(2, 1)
            kick = Kick(when, name='kick', timescale='update')
            stop = StopOnSigQuit(timescale=t, interval=i)
            for h in ((kick, stop) if case['first'] else (stop, kick)):
                tr.add_hook(h)
            tr.add_hook(StopAfterEpoch(epochs))
            tr.train(net, it)
            # the signal arrives during the update hooks of update `when`
            if t == 'update':
                start = when if case['first'] else when + 1
                c = [u for u in range(start, nb * epochs + 1) if u % i == 0]
                want = c[0] if c else nb * epochs
            else:
                e0 = -(-when // nb)
                c = [e for e in range(e0, epochs + 1) if e % i == 0]
                want = (c[0] if c else epochs) * nb
            check(tr.current_update_nr == want, 'SIGQUIT at update {} with '
                  '{} hook of interval {} stopped at update {}, expected {}',
                  when, t, i, tr.current_update_nr, want)
            ctx.step(want)
            ctx.state('quit', t, i, case['first'], when)
        ctx.trace()
    finally:
        signal.signal(signal.SIGQUIT, old)


def quit_restart(ctx):
    """A signal stops the training it arrives in, not the next one."""
    old = signal.signal(signal.SIGQUIT, signal.SIG_IGN)
    try:
        for first in (None, 2, 5):
            for between in (False, True):
                for second in (None, 3, 7):
                    net, tr, it = setup(1, 1)
                    kick = Kick(first, name='kick', timescale='update')
                    tr.add_hook(kick)
                    tr.add_hook(StopOnSigQuit())
                    stop = StopAfterEpoch(6)
                    tr.add_hook(stop)
                    tr.train(net, it)
                    a = first or 6
                    check(tr.current_update_nr == a, 'first training ended '
                          'at {}, expected {}', tr.current_update_nr, a)
                    if between:
                        os.kill(os.getpid(), signal.SIGQUIT)
                    kick.when = None if second is None else a + second
                    stop.max_epochs = a + 9
                    tr.train(net, it)
                    b = a + (second or 9)
                    check(tr.current_update_nr == b, 'second training ended '
                          'at {}, expected {} (signals: {}, between: {}, {})',
                          tr.current_update_nr, b, first, between, second)
                    ctx.step(b)
                    ctx.state('quit2', first, between, second)
        ctx.trace()
    finally:
        signal.signal(signal.SIGQUIT, old)
