"""The trainer calls hooks, counts, logs and stops exactly as documented."""
import contextlib
import io
import itertools

import numpy as np

import brainstorm as bs
from brainstorm.data_iterators import Minibatches
from brainstorm.hooks import Hook, StopAfterEpoch
from brainstorm.scorers import Scorer
from brainstorm.training.steppers import SgdStepper, ForwardStepper
from brainstorm.training.trainer import Trainer
from brainstorm.value_modifiers import ValueModifier
from brainstorm.handlers import NumpyHandler
from vmc.core import Violation, check
from vmc.nets import gen, expect_close

BOUNDS = {
    'quick': 'all sequences of <=2 recording hooks over {epoch,update} x '
             'interval 1..3, with a stopping hook ({epoch,update} x interval '
             '1..2 x requested stop count 0..4) at every position, on 1, 2, 3 '
             'batches per epoch (equal and unequal); all hook pairs x all '
             'two-call histories (stop count 0..3 then +0..2); the intervals '
             '1..6; error and verbosity cases'
             '; intervals 7 to 12 and up to 100 over three intervals of '
             'training',
    'thorough': 'as quick with <=3 recording hooks, stop count 0..6, '
                'three-call histories and up to 4 batches per epoch',
}

KINDS = [(t, i) for t in ('epoch', 'update') for i in (1, 2, 3)]
DATA = [(1, 1), (3, 2), (4, 2), (3, 1)]


def cases(tier):
    th = tier == 'thorough'
    data = DATA + ([(7, 2)] if th else [])
    for n in range(0, 4 if th else 3):
        for seq in itertools.product(range(6), repeat=n):
            for pos in range(n + 1):
                yield dict(k='train', seq=seq, pos=pos, data=data,
                           stops=list(range(7 if th else 5)))
    for seq in itertools.product(range(6), repeat=2):
        yield dict(k='resume', seq=seq, data=data, calls=3 if th else 2)
    for t in ('epoch', 'update'):
        for i in list(range(1, 13)) + [16, 20, 32, 50, 64, 100]:
            yield dict(k='interval', t=t, i=i)
    for k in ('errors', 'evaluate', 'verbose', 'names', 'defaults',
              'stopepoch', 'scorers', 'nolog'):
        yield dict(k=k)


class Rec(Hook):
    """Records its calls; returns a value, a nested dict or None."""
    __undescribed__ = {'events'}

    def __init__(self, events, name, timescale, interval, ret):
        super(Rec, self).__init__(name, timescale, interval)
        self.events = events
        self.ret = ret
        self.calls = 0

    def start(self, net, stepper, verbose, named_data_iters):
        super(Rec, self).start(net, stepper, verbose, named_data_iters)
        self.events.append(('start', self.__name__))

    def value(self, e, u):
        return make_value(self.ret, e, u)

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.events.append(('call', self.__name__, epoch_nr, update_nr))
        return self.value(epoch_nr, update_nr)


def make_value(ret, e, u):
    v = 100 * e + u
    if ret == 0:
        return v
    if ret == 1:
        return {'a': v, 'b': {'c': v + 0.5, 'd': None}}
    return v if (e + u) % 2 == 0 else None


class Stop(Rec):
    limit = 0

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.events.append(('call', self.__name__, epoch_nr, update_nr))
        now = epoch_nr if self.timescale == 'epoch' else update_nr
        if now >= self.limit:
            raise StopIteration()
        return None


class RecStepper(SgdStepper):
    __undescribed__ = {'events'}

    def __init__(self, events):
        super(RecStepper, self).__init__(0.01)
        self.events = events

    def start(self, net):
        super(RecStepper, self).start(net)
        self.events.append(('stepper-start',))

    def run(self):
        super(RecStepper, self).run()
        x = self.net.get_input('default')
        self.events.append(('step', tuple(x[0, :, 0].tolist())))
        self.losses.append((x.shape[1], dict(self.net.get_loss_values())))


class RecScorer(Scorer):
    def __call__(self, true_labels, predicted, mask=None):
        self.events.append(('score', self.__name__,
                            tuple(true_labels[:, 0].tolist())))
        return 10.0 * true_labels.sum()


class RecMod(ValueModifier):
    __undescribed__ = {'events'}

    def __init__(self, events):
        super(RecMod, self).__init__()
        self.events = events

    def __call__(self, handler, view):
        self.events.append(('wmod',))

    def __deepcopy__(self, memo):
        return RecMod(self.events)


def build(events, N, b, scorers=1, verbose=False):
    from brainstorm.layers import (Input, FullyConnected, SquaredError, Loss)
    inp = Input(out_shapes={'default': ('T', 'B', 1),
                            'targets': ('T', 'B', 1)})
    fc = FullyConnected(1, activation='linear', name='fc')
    se = SquaredError(name='se')
    inp >> fc >> 'default' - se
    inp - 'targets' >> 'targets' - se
    net = bs.Network.from_layer(se - 'loss' >> Loss(name='Loss'))
    net.set_handler(NumpyHandler(np.float64))
    net.output_name = 'se.outputs.predictions'
    net.initialize(0.5)
    net.set_weight_modifiers({'fc': {'W': [RecMod(events)]}})
    stepper = RecStepper(events)
    stepper.losses = []
    tr = Trainer(stepper, verbose=verbose)
    tr.train_scorers = []
    for i in range(scorers):
        sc = RecScorer(name='score%d' % i)
        sc.events = events
        tr.train_scorers.append(sc)
    x = np.arange(1.0, N + 1).reshape(1, N, 1)
    it = Minibatches(b, False, default=x, targets=x * 2)
    return net, tr, it


def canon(events):
    """Order of scoring and weight modification within one update is free."""
    out, run = [], []
    for e in events:
        if e[0] in ('score', 'wmod'):
            run.append(e)
        else:
            out.extend(sorted(run, key=repr))
            run = []
            out.append(e)
    return out + sorted(run, key=repr)


def add_log(logs, name, val):
    if val is None:
        return
    if isinstance(val, dict):
        sub = logs.setdefault(name, {})
        for k, v in val.items():
            add_log(sub, k, v)
    else:
        logs.setdefault(name, []).append(val)


class Model(object):
    def __init__(self, hooks, N, b, scorers):
        self.hooks, self.N, self.b = hooks, N, b
        self.scorers = scorers
        self.e = self.u = 0
        self.events, self.logs = [], {}
        self.batches = []    # list of epochs: indices of updates

    def emit(self, scale, limit):
        now = self.e if scale == 'epoch' else self.u
        stop = False
        for h in self.hooks:
            if h['t'] != scale or now % h['i']:
                continue
            self.events.append(('call', h['name'], self.e, self.u))
            if h['ret'] == 'stop':
                stop |= now >= limit
            else:
                add_log(self.logs, h['name'],
                        make_value(h['ret'], self.e, self.u))
        return stop

    def train(self, limit, epoch_after_update_stop):
        self.events.append(('stepper-start',))
        for h in self.hooks:
            self.events.append(('start', h['name']))
        if self.emit('update', limit):
            if epoch_after_update_stop:
                self.emit('epoch', limit)
            return
        if self.emit('epoch', limit):
            return
        stop = False
        while not stop:
            self.e += 1
            ups = []
            for s in range(0, self.N, self.b):
                xs = [float(v + 1) for v in range(s, min(self.N, s + self.b))]
                self.u += 1
                ups.append(xs)
                self.events.append(('step', tuple(xs)))
                for i in range(self.scorers):
                    self.events.append(('score', 'score%d' % i,
                                        tuple(2 * v for v in xs)))
                self.events.append(('wmod',))
                if self.emit('update', limit):
                    stop = True
                    break
            self.batches.append(ups)
            stop |= self.emit('epoch', limit)


def check_logs(tr, model, what):
    got = dict(tr.logs)
    rolling = got.pop('rolling_training', None)
    check(got == model.logs, '{}: logs {} expected {}', what, got, model.logs)
    losses = iter(tr.stepper.losses)
    want = {}
    for ups in model.batches:
        per = [next(losses) for _ in ups]
        tot = float(sum(n for n, _ in per))
        for name in per[0][1]:
            want.setdefault(name, []).append(
                sum(n * l[name] for n, l in per) / tot)
        for i in range(model.scorers):
            want.setdefault('score%d' % i, []).append(
                sum(20.0 * v for xs in ups for v in xs) /
                sum(len(xs) for xs in ups))
    if not want:
        check(rolling is None, '{}: training was logged without training: '
              '{}', what, rolling)
        return
    check(rolling is not None and set(rolling) == set(want),
          '{}: rolling_training has {} instead of {}', what,
          rolling and sorted(rolling), sorted(want))
    for k in want:
        check(len(rolling[k]) == len(want[k]), '{}: {} entries for {} '
              'instead of {}', what, len(rolling[k]), k, len(want[k]))
        expect_close(rolling[k], want[k], '%s: rolling_training.%s' %
                     (what, k), 1e-9)


def hook_defs(seq, stop, pos):
    hooks = [dict(name='h%d' % i, t=KINDS[k][0], i=KINDS[k][1],
                  ret=(i + k) % 3) for i, k in enumerate(seq)]
    hooks.insert(pos, dict(name='stop', t=stop[0], i=stop[1], ret='stop'))
    return hooks


def play(hooks, limits, N, b, scorers, what, ctx, verbose=False):
    events = []
    net, tr, it = build(events, N, b, scorers, verbose)
    stopper = None
    for h in hooks:
        if h['ret'] == 'stop':
            o = stopper = Stop(events, h['name'], h['t'], h['i'], None)
        else:
            o = Rec(events, h['name'], h['t'], h['i'], h['ret'])
        tr.add_hook(o)
    models = [Model(hooks, N, b, scorers)]
    for n, limit in enumerate(limits):
        stopper.limit = limit
        tr.train(net, it)
        # if an update hook stops before training, whether the epoch hooks
        # are still called is left open
        m2 = []
        for m in models:
            for flag in (False, True):
                c = Model(hooks, N, b, scorers)
                c.e, c.u = m.e, m.u
                c.events, c.batches = list(m.events), list(m.batches)
                import copy
                c.logs = copy.deepcopy(m.logs)
                c.train(limit, flag)
                m2.append(c)
        got = canon(events)
        ok = [m for m in m2 if canon(m.events) == got]
        if not ok:
            exp = canon(m2[0].events)
            i = next((i for i, (a, c) in enumerate(zip(got, exp))
                      if a != c), min(len(got), len(exp)))
            raise Violation(
                '%s, train() call %d: event %d is %r, expected %r (after %r)'
                % (what, n, i, got[i:i + 1], exp[i:i + 1],
                   got[max(0, i - 3):i]))
        models = ok
        m = ok[0]
        check((tr.current_epoch_nr, tr.current_update_nr) == (m.e, m.u),
              '{}: counters are {}, expected {}', what,
              (tr.current_epoch_nr, tr.current_update_nr), (m.e, m.u))
        errs = []
        for m in models:
            try:
                check_logs(tr, m, what)
                break
            except Violation as v:
                errs.append(v)
        else:
            raise errs[0]
        ctx.step(len(got))
    ctx.trace()
    ctx.state(repr(hooks), tuple(limits), N, b)
    ctx.outcome(m.e, m.u, len(events))
    return tr, events


def run(case, ctx):
    k = case['k']
    if k == 'train':
        for t in ('epoch', 'update'):
            for i in (1, 2):
                hooks = hook_defs(case['seq'], (t, i), case['pos'])
                for limit in case['stops']:
                    for N, b in case['data']:
                        play(hooks, [limit], N, b, 1, 'hooks %s, stop at '
                             '%d, %d sequences in batches of %d' % (
                                 [(h['t'], h['i'], h['ret'])
                                  for h in hooks], limit, N, b), ctx)
    elif k == 'resume':
        for t in ('epoch', 'update'):
            hooks = hook_defs(case['seq'], (t, 1), 1)
            for first in range(4):
                for more in itertools.product(range(3),
                                              repeat=case['calls'] - 1):
                    limits = [first]
                    for d in more:
                        limits.append(limits[-1] + d)
                    for N, b in case['data']:
                        play(hooks, limits, N, b, 1,
                             'hooks %s, stops at %s' % (
                                 [(h['t'], h['i'], h['ret'])
                                  for h in hooks], limits), ctx)
    elif k == 'interval':
        for N, b in DATA + [(5, 1)]:
            hooks = [dict(name='a', t=case['t'], i=case['i'], ret=0),
                     dict(name='stop', t='epoch', i=1, ret='stop'),
                     dict(name='b', t=case['t'], i=case['i'], ret=1)]
            play(hooks, [13] if case['i'] < 7 else [2 * case['i'] + 1,
                                                    3 * case['i']],
                 N, b, 2, 'interval %d' % case['i'], ctx)
    elif k == 'scorers':
        for n in range(4):
            for N, b in DATA:
                for t in ('epoch', 'update'):
                    for limit in range(5):
                        hooks = [dict(name='stop', t=t, i=1, ret='stop')]
                        play(hooks, [limit, limit + 1], N, b, n,
                             '%d scorers' % n, ctx)
    elif k == 'names':
        # names may be anything and are unique per trainer
        events = []
        net, tr, it = build(events, 2, 1)
        tr.add_hook(Rec(events, 'z', 'epoch', 1, 0))
        tr.add_hook(Rec(events, 'a', 'epoch', 1, 0))
        for n in ('z', 'a'):
            try:
                tr.add_hook(Rec(events, n, 'update', 1, 0))
            except ValueError:
                ctx.step()
            else:
                raise Violation('a second hook named %r was accepted' % n)
        tr.add_hook(StopAfterEpoch(2))
        try:
            tr.add_hook(StopAfterEpoch(3))
        except ValueError:
            pass
        else:
            raise Violation('a second StopAfterEpoch was accepted')
        tr.add_hook(StopAfterEpoch(5, name='other'))
        tr.train(net, it)
        calls = [e[1:] for e in events if e[0] == 'call']
        check(calls == [('z', 0, 0), ('a', 0, 0), ('z', 1, 2), ('a', 1, 2),
                        ('z', 2, 4), ('a', 2, 4)],
              'calls {} after refused hooks', calls)
        check(Hook().__name__ == 'Hook' and
              StopAfterEpoch(1).__name__ == 'StopAfterEpoch' and
              StopAfterEpoch(1, name='x').__name__ == 'x',
              'default hook names')
        ctx.trace()
        ctx.state('names')
    elif k == 'stopepoch':
        for n in range(0, 6):
            for N, b in DATA:
                for t in ('epoch', 'update'):
                    for i in (1, 2, 3):
                        events = []
                        net, tr, it = build(events, N, b)
                        tr.add_hook(StopAfterEpoch(n, timescale=t,
                                                   interval=i))
                        tr.train(net, it)
                        nb = -(-N // b)
                        # first call at which the epoch number is >= n
                        if t == 'epoch':
                            e = next(e for e in range(100) if e >= n and
                                     e % i == 0)
                            u = e * nb
                        else:
                            u = next(u for u in range(1000) if u % i == 0 and
                                     -(-u // nb) >= n)
                            e = -(-u // nb)
                        check((tr.current_epoch_nr, tr.current_update_nr) ==
                              (e, u), 'StopAfterEpoch({}, {}, {}) with {} '
                              'batches stopped at epoch {}, update {} instead'
                              ' of {}, {}', n, t, i, nb, tr.current_epoch_nr,
                              tr.current_update_nr, e, u)
                        steps = [x for x in events if x[0] == 'step']
                        check(len(steps) == u, '{} updates performed, {} '
                              'counted', len(steps), u)
                        ctx.step(u)
                        ctx.state('stopepoch', n, N, b, t, i)
        ctx.trace()
    elif k == 'evaluate':
        for seq in itertools.product(range(6), repeat=2):
            for N, b in DATA:
                events = []
                net, tr, it = build(events, N, b)
                hooks = [dict(name='h%d' % i, t=KINDS[q][0], i=KINDS[q][1],
                              ret=(i + q) % 2)
                         for i, q in enumerate(seq)]
                for h in hooks:
                    tr.add_hook(Rec(events, h['name'], h['t'], h['i'],
                                    h['ret']))
                before = net.get('parameters')
                res = tr.evaluate(net, some=it)
                want = {}
                for h in hooks:
                    add_log(want, h['name'], make_value(h['ret'], 0, 0))
                check(res == want, 'evaluate returned {} instead of {}', res,
                      want)
                check(tr.logs == {}, 'evaluate wrote training logs {}',
                      tr.logs)
                check(sorted(e for e in events if e[0] == 'call') ==
                      sorted(('call', h['name'], 0, 0) for h in hooks),
                      'evaluate: events {}', events)
                check(sorted(e[1] for e in events if e[0] == 'start') ==
                      sorted(h['name'] for h in hooks),
                      'evaluate did not start all hooks: {}', events)
                check((tr.current_epoch_nr, tr.current_update_nr) == (0, 0),
                      'evaluate changed the counters')
                check(np.array_equal(before, net.get('parameters')),
                      'evaluate changed the parameters')
                check(not [e for e in events if e[0] in ('step', 'wmod')],
                      'evaluate trained')
                ctx.step(2)
                ctx.state('eval', seq, N, b)
        ctx.trace()
    elif k == 'errors':
        class Boom(Exception):
            pass

        class Bad(Hook):
            def __call__(self, epoch_nr, update_nr, net, stepper, logs):
                if (epoch_nr, update_nr) == self.when:
                    raise Boom('x')

        class BadStart(Hook):
            def start(self, net, stepper, verbose, named_data_iters):
                raise Boom('start')
        err = io.StringIO()
        for t in ('epoch', 'update'):
            for when in [(0, 0), (1, 1), (1, 2), (2, 4)]:
                if t == 'epoch' and when == (1, 1):
                    continue
                events = []
                net, tr, it = build(events, 2, 1)
                b = Bad(timescale=t)
                b.when = when
                tr.add_hook(b)
                tr.add_hook(StopAfterEpoch(3))
                try:
                    with contextlib.redirect_stderr(err), \
                            contextlib.redirect_stdout(err):
                        tr.train(net, it)
                except Boom:
                    check(len([e for e in events if e[0] == 'step']) ==
                          when[1], 'steps before a failing hook')
                    ctx.step()
                else:
                    raise Violation('an exception of a hook at %r was '
                                    'swallowed' % (when,))
        net, tr, it = build([], 2, 1)
        tr.add_hook(BadStart())
        try:
            with contextlib.redirect_stderr(err):
                tr.train(net, it)
        except Boom:
            pass
        else:
            raise Violation('an exception in start() of a hook was swallowed')
        # data that does not fit the network is rejected before training
        x = np.ones((1, 2, 1))
        for names in ({'default': x}, {'targets': x},
                      {'default': x, 'targets': x, 'extra': x},
                      {'default': x, 'target': x}):
            events = []
            net, tr, it = build(events, 2, 1)
            tr.add_hook(StopAfterEpoch(1))
            try:
                tr.train(net, Minibatches(1, False, **names))
            except AssertionError:
                check(not [e for e in events if e[0] == 'step'],
                      'trained before rejecting the data')
                ctx.step()
            else:
                raise Violation('training on %s was accepted' %
                                sorted(names))
        ctx.trace()
        ctx.state('errors')
    elif k == 'verbose':
        for tv in (False, True):
            for hv in (None, False, True):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    events = []
                    net, tr, it = build(events, 3, 2, verbose=tv)
                    h = Rec(events, 'theHook', 'update', 1, 0)
                    h.verbose = hv
                    tr.add_hook(h)
                    tr.add_hook(StopAfterEpoch(2))
                    tr.train(net, it)
                    h.message('a message')
                text = out.getvalue()
                on = tv if hv is None else hv
                check(('theHook' in text) == on, 'trainer verbose={}, hook '
                      'verbose={}: log printed: {}', tv, hv,
                      'theHook' in text)
                check(('a message' in text) == on, 'trainer verbose={}, '
                      'hook verbose={}: message printed: {}', tv, hv,
                      'a message' in text)
                if not tv and not on:
                    check(text == '', 'a silent trainer printed {!r}', text)
                check(tr.logs['theHook'] == [0, 101, 102, 203, 204],
                      'logs depend on verbosity: {}', tr.logs['theHook'])
                ctx.state('verbose', tv, hv)
        for hooks in ([dict(name='x', t='update', i=1, ret=1),
                       dict(name='stop', t='epoch', i=1, ret='stop')],):
            with contextlib.redirect_stdout(io.StringIO()):
                play(hooks, [2], 3, 2, 1, 'verbose', ctx, verbose=True)
        ctx.trace()
    elif k == 'defaults':
        h = Hook()
        check((h.timescale, h.interval, h.verbose) == ('epoch', 1, None),
              'default hook options')
        for st in (ForwardStepper(), SgdStepper()):
            tr = Trainer(st, verbose=False)
            check(tr.stepper is st and not tr.logs and not tr.hooks and
                  tr.current_epoch_nr == 0 and tr.current_update_nr == 0,
                  'fresh trainer')
        a, b = Trainer(SgdStepper(), False), Trainer(SgdStepper(), False)
        a.logs['x'] = [1]
        a.add_hook(Hook())
        a.train_scorers.append(1)
        check(not b.logs and not b.hooks and not b.train_scorers,
              'trainers share state')
        ctx.trace()
        ctx.state('defaults')
    else:
        # zero, False and empty values are logged, only None is not
        class Zero(Hook):
            def __call__(self, epoch_nr, update_nr, net, stepper, logs):
                self.seen.append(dict(logs).keys())
                return self.v
        for v in (0, 0.0, False, '', [], np.float64(0), (1, 2),
                  np.zeros(2), {'z': 0}):
            for t in ('epoch', 'update'):
                net, tr, it = build([], 2, 1)
                h = Zero(name='zero', timescale=t)
                h.seen, h.v = [], v
                tr.add_hook(h)
                tr.add_hook(StopAfterEpoch(2))
                tr.train(net, it)
                n = 3 if t == 'epoch' else 5
                log = tr.logs['zero']
                if isinstance(v, dict):
                    log, ref = log['z'], 0
                else:
                    ref = v
                check(len(log) == n and all(
                    np.array_equal(x, ref) for x in log), 'a hook returning '
                    '{!r} is logged as {!r}', v, log)
                ctx.step(n)
                ctx.state('nolog', repr(v), t)
        ctx.trace()
