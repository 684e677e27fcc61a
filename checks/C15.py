"""Monitors report the true values and the best network is kept."""
import contextlib
import io
import itertools
import math
import os
import tempfile

import h5py
import numpy as np

import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import scorers as S
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.training.steppers import MomentumStepper, SgdStepper
from brainstorm.training.trainer import Trainer
from checks.specs import O, inp, L
from vmc.core import Violation, check
from vmc.nets import (gen, gen_int, make_net, set_params, generic_params,
                      get_params, expect_close)

BOUNDS = {
    'quick': 'best network: all histories of length 5 over {-1,0,1} and '
             'length 4 over {-inf,1,NaN,inf} x min/max x memory/file x '
             'epoch/update x interval 1..2 x logged before training or not, '
             'inspected after every single epoch/update; all monitors x 5 '
             'networks x epoch/update x interval 1..3 x 3 batch sizes, each '
             'logged value recomputed from recorded parameters and data, '
             'training trajectory with every single monitor and every '
             'pair compared with the unmonitored one; the same for all pairs '
             'of train calls stopped by epoch or update, with evaluations in '
             'between, with every monitor and every pair with a progress bar'
             '; best network for values that differ by 1e-12 and 1e-300',
    'thorough': 'as quick with histories of length 7 / 5, all triples of '
                'monitors, 4 batch sizes and three train calls',
}
NAN, INF = float('nan'), float('inf')


def cases(tier):
    th = tier == 'thorough'
    for crit in ('min', 'max'):
        for store in ('mem', 'file'):
            for t in ('epoch', 'update'):
                for i in (1, 2):
                    for pre in (None, 0.0):
                        yield dict(k='best', crit=crit, store=store, t=t,
                                   i=i, pre=pre, alpha=[-1.0, 0.0, 1.0],
                                   n=7 if th and store == 'mem' else
                                   5 if store == 'mem' else 4)
                    yield dict(k='best', crit=crit, store=store, t=t, i=i,
                               pre=None, alpha=['-inf', 1.0, 'nan', 'inf'],
                               n=4 if store == 'mem' else 3)
                    for near in ([1.0, 1 - 1e-12, 1 + 1e-12],
                                 [0.0, 1e-300, -1e-300]):
                        yield dict(k='best', crit=crit, store=store, t=t,
                                   i=i, pre=None, alpha=near, n=3)
    for net in sorted(NETS):
        for b in (1, 2, 5) + ((3,) if th else ()):
            for t in ('epoch', 'update'):
                for i in (1, 2, 3):
                    yield dict(k='values', net=net, b=b, t=t, i=i)
    for net in sorted(NETS):
        for st in ('sgd', 'momentum'):
            for n in (1, 2, 3) if th else (1, 2):
                for combo in itertools.combinations(range(len(MONITORS)), n):
                    yield dict(k='silent', net=net, st=st, combo=combo)
    for net in sorted(NETS):
        for n in (1, 2, 3) if th else (1, 2):
            for combo in itertools.combinations(range(len(MONITORS)), n):
                if n > 1 and MONITORS.index('bar') not in combo and not th:
                    continue
                yield dict(k='again', net=net, combo=combo,
                           calls=3 if th and n < 3 else 2)
    yield dict(k='bar')
    yield dict(k='errors')
    yield dict(k='stepattr')
    yield dict(k='info')
    yield dict(k='savelogs')


# ------------------------------------------------------------- networks --

def nets():
    ff = [inp(default=[3], targets=[1]),
          L('h', 'FullyConnected', O('Input'), size=3, activation='tanh'),
          L('p', 'FullyConnected', 'h', size=3, activation='linear'),
          L('out', 'SoftmaxCE', ins={'default': [O('p')],
                                     'targets': [O('Input', 'targets')]}),
          L('loss', 'Loss', O('out', 'loss'))]
    bn = [inp(default=[3], targets=[2]),
          L('bn', 'BatchNorm', O('Input'), decay=0.5),
          L('do', 'Dropout', 'bn', drop_prob=0.4),
          L('h', 'FullyConnected', 'do', size=2, activation='linear'),
          L('out', 'SigmoidCE', ins={'default': [O('h')],
                                     'targets': [O('Input', 'targets')]}),
          L('loss', 'Loss', O('out', 'loss')),
          L('l2', 'L2Decay', O('h')),
          L('loss2', 'Loss', O('l2', 'loss'), importance=0.3)]
    rnn = [inp(default=[2], targets=[2], mask=[1]),
           L('h', 'Lstm', O('Input'), size=2),
           L('r', 'Recurrent', 'h', size=2),
           L('out', 'SquaredError', ins={'default': [O('r')],
                                         'targets': [O('Input',
                                                       'targets')]}),
           L('ma', 'Mask', ins={'default': [O('out', 'loss')],
                                'mask': [O('Input', 'mask')]}),
           L('loss', 'Loss', 'ma')]
    conv = [inp(default=[4, 4, 1], targets=[1]),
            L('h', 'Convolution2D', O('Input'), num_filters=2,
              kernel_size=(2, 2), activation='tanh'),
            L('p', 'Pooling2D', 'h', kernel_size=(2, 2), type='max'),
            L('f', 'FullyConnected', 'p', size=3, activation='linear'),
            L('out', 'SoftmaxCE', ins={'default': [O('f')],
                                       'targets': [O('Input',
                                                     'targets')]}),
            L('loss', 'Loss', O('out', 'loss'))]
    hw = [inp(default=[2], targets=[2]),
          L('h', 'FullyConnected', O('Input'), size=2, activation='rel'),
          L('t', 'FullyConnected', O('Input'), size=2,
            activation='sigmoid'),
          L('hw', 'Highway', ins={'H': [O('h')], 'T': [O('t')],
                                  'x': [O('Input')]}),
          L('out', 'SquaredError', ins={'default': [O('hw')],
                                        'targets': [O('Input',
                                                      'targets')]}),
          L('loss', 'Loss', O('out', 'loss'), importance=2.0)]
    return dict(ff=ff, bn=bn, rnn=rnn, conv=conv, hw=hw)


NETS = nets()
T_OF = dict(ff=2, bn=1, rnn=3, conv=1, hw=2)
LAYERS = dict(ff=['h', 'out', 'loss', 'Input'], bn=['bn', 'do', 'h', 'l2'],
              rnn=['h', 'r', 'ma'], conv=['h', 'p', 'f'],
              hw=['hw', 't', 'loss'])


def data(net, N, key):
    T = T_OF[net]
    out = {}
    for n, sh in NETS[net][0][2]['out_shapes'].items():
        shape = (T, N) + tuple(sh)
        if n == 'default':
            out[n] = gen((key, n), shape)
        elif n == 'mask':
            out[n] = (gen((key, n), shape) > -0.3).astype(float)
            out[n][0] = 1.0
        elif net == 'bn':
            out[n] = gen_int((key, n), shape, 2)
        elif net in ('ff', 'conv'):
            out[n] = gen_int((key, n), shape, 3)
        else:
            out[n] = gen((key, n), shape)
    return out


def fresh(net):
    bs.global_rnd.set_seed(3)
    n = make_net(NETS[net])
    n.initialize(0.0)
    set_params(n, generic_params(n, net))
    n.output_name = 'out.outputs.predictions'
    n.rnd.set_seed(5)
    return n


def scorers(net):
    kw = dict(mask_name='mask') if net == 'rnn' else {}
    if net in ('ff', 'conv'):
        return [S.Accuracy(**kw)]
    if net == 'bn':
        return [S.Hamming(**kw), S.Hamming(0.3, name='h3')]
    return [S.MeanSquaredError(**kw)]


def truth(net, params, d):
    """Losses and scores over a data set, one sequence at a time."""
    twin = fresh(net)
    set_params(twin, params)
    N = d['default'].shape[1]
    losses, num, den, preds = {}, {}, 0.0, []
    for b in range(N):
        twin.provide_external_data({k: v[:, b:b + 1] for k, v in d.items()})
        twin.forward_pass()
        for n, v in twin.get_loss_values().items():
            losses[n] = losses.get(n, 0.0) + v / N
        preds.append(twin.get('out.outputs.predictions'))
    p = np.concatenate(preds, axis=1)
    t = d['targets']
    m = d.get('mask', np.ones(t.shape[:2] + (1,)))
    sc = {}
    if net in ('ff', 'conv'):
        sc['Accuracy'] = float(np.sum(m[..., 0] * (
            p.reshape(p.shape[:2] + (-1,)).argmax(2) ==
            t.reshape(p.shape[:2])))) / m.sum()
    elif net == 'bn':
        for n, th in (('Hamming', 0.5), ('h3', 0.3)):
            sc[n] = float(np.mean((p >= th) == (t == 1)))
    else:
        sc['MeanSquaredError'] = 0.5 * np.sum(m * (t - p) ** 2) / m.sum()
    return losses, sc


def stats(v):
    return {'min': v.min(), 'avg': v.mean(), 'max': v.max()}


def snapshot(net, layer):
    """Everything a layer monitor may look at."""
    out = {}
    for kind in ('parameters', 'gradients', 'internals', 'inputs', 'outputs',
                 'input_deltas', 'output_deltas'):
        view = net.buffer[layer][kind]
        out[kind] = {k: np.array(net.get('%s.%s.%s' % (layer, kind, k)))
                     for k in view.keys()}
    return out


class Watch(H.Hook):
    """First hook in the list: records the situation the others see."""
    layers = ()

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.seen.append(dict(
            at=(epoch_nr, update_nr), params=get_params(net),
            snap={l: snapshot(net, l) for l in self.layers}))


# -------------------------------------------------------------- monitors --

MONITORS = ['loss', 'loss_train', 'scores', 'params', 'grads', 'deltas',
            'inouts', 'savelogs', 'savenet', 'best', 'bestfile', 'bar',
            'info', 'nan']


class Run(object):
    def __init__(self):
        self.info = {}


def add_monitor(tr, m, net, t, i, tmp):
    kw = dict(timescale=t, interval=i)
    if m == 'loss':
        tr.add_hook(H.MonitorLoss('valid', name='loss', **kw))
    elif m == 'loss_train':
        tr.add_hook(H.MonitorLoss('training_data_iter', name='tloss', **kw))
    elif m == 'scores':
        tr.add_hook(H.MonitorScores('valid', scorers(net), name='scores',
                                    **kw))
    elif m == 'params':
        for l in LAYERS[net]:
            tr.add_hook(H.MonitorLayerParameters(l, **kw))
    elif m == 'grads':
        for l in LAYERS[net]:
            tr.add_hook(H.MonitorLayerGradients(l, **kw))
    elif m == 'deltas':
        for l in LAYERS[net]:
            tr.add_hook(H.MonitorLayerDeltas(l, **kw))
    elif m == 'inouts':
        for l in LAYERS[net]:
            tr.add_hook(H.MonitorLayerInOuts(l, **kw))
    elif m == 'savelogs':
        tr.add_hook(H.SaveLogs(os.path.join(tmp, 'logs.h5'), **kw))
    elif m == 'savenet':
        tr.add_hook(H.SaveNetwork(os.path.join(tmp, 'net.h5'), **kw))
    elif m in ('best', 'bestfile'):
        fn = os.path.join(tmp, 'best.h5') if m == 'bestfile' else None
        tr.add_hook(H.SaveBestNetwork('rolling_training.total_loss', fn,
                                      'min', name=m))
    elif m == 'bar':
        tr.add_hook(H.ProgressBar())
    elif m == 'info':
        tr.add_hook(H.InfoUpdater(Run(), **kw))
    elif m == 'nan':
        tr.add_hook(H.StopOnNan())


def train(net, st, monitors, b, t, i, tmp, epochs=3, watch=True, N=5,
          shuffle=True):
    n = fresh(net)
    stepper = SgdStepper(0.1) if st == 'sgd' else MomentumStepper(0.2, 0.5)
    tr = Trainer(stepper, verbose=False)
    w = Watch('watch', t, i)
    w.seen, w.layers = [], LAYERS[net] if watch else []
    tr.add_hook(w)
    for m in monitors:
        add_monitor(tr, m, net, t, i, tmp)
    tr.add_hook(H.StopAfterEpoch(epochs))
    d = data(net, N, 'train')
    v = data(net, 4, 'valid')
    it = Minibatches(b, shuffle, cut_according_to=None, **d)
    valid = Minibatches(3, True, cut_according_to=None, **v)
    it.rnd.set_seed(8)
    valid.rnd.set_seed(9)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        tr.train(n, it, valid=valid)
    return n, tr, w, d, v, out.getvalue()


def expect_stats(log, idx, ref, what):
    for k, x in ref.items():
        check(k in log and -len(log[k]) <= idx < len(log[k]),
              '{}: no entry {} number {}', what, k, idx)
        expect_close(log[k][idx], x, '%s.%s, entry %d' % (what, k, idx))


def values(case, ctx):
    net, t, i = case['net'], case['t'], case['i']
    tmp = tempfile.mkdtemp()
    mons = ['params', 'grads', 'deltas', 'inouts', 'loss', 'loss_train',
            'scores', 'savelogs', 'savenet', 'info']
    n, tr, w, d, v, _ = train(net, 'momentum', mons, case['b'], t, i, tmp)
    logs = tr.logs
    nb = -(-5 // case['b'])
    last = 3 if t == 'epoch' else 3 * nb
    check(len(w.seen) == last // i + 1, '{} calls of hooks', len(w.seen))
    expect_names = {'loss', 'tloss', 'scores', 'rolling_training'}
    for idx, s in enumerate(w.seen):
        for name, dd in (('loss', v), ('tloss', d), ('scores', v)):
            losses, sc = truth(net, s['params'], dd)
            if name == 'scores':
                losses.update(sc)
            check(set(logs[name]) == set(losses), '{}: keys {} instead of {}',
                  name, sorted(logs[name]), sorted(losses))
            for k, x in losses.items():
                check(len(logs[name][k]) == len(w.seen), '{}.{} has {} '
                      'entries for {} calls', name, k, len(logs[name][k]),
                      len(w.seen))
                expect_close(logs[name][k][idx], x, '%s.%s at %s' % (
                    name, k, s['at']), 1e-9)
        for l in LAYERS[net]:
            snap = s['snap'][l]
            for p, x in snap['parameters'].items():
                log = logs['MonitorParameters_' + l][p]
                expect_stats(log, idx, stats(x), 'parameters of ' + l)
                if x.ndim == 2:
                    norm = np.array([math.sqrt(sum(e * e for e in row))
                                     for row in x])
                    expect_stats(log, idx, {
                        'min_L2_norm': norm.min(), 'avg_L2_norm':
                        norm.mean(), 'max_L2_norm': norm.max()},
                        'parameters of ' + l)
                elif x.ndim > 2:
                    # norm of the incoming weights: of the whole kernel or
                    # per kernel row, the documentation does not say
                    alts = [np.sqrt((x ** 2).sum(axis=1)),
                            np.sqrt((x.reshape(len(x), -1) ** 2).sum(axis=1))]
                    for key, f in (('min', np.min), ('avg', np.mean),
                                   ('max', np.max)):
                        key += '_L2_norm'
                        check(key in log and len(log[key]) == len(w.seen) and
                              any(abs(log[key][idx] - f(a)) < 1e-9
                                  for a in alts), 'parameters of {}: {}.{} '
                              'is {}', l, p, key, log.get(key))
            for p, x in snap['gradients'].items():
                expect_stats(logs['MonitorGradients_' + l][p], idx, stats(x),
                             'gradients of ' + l)
            # before the first batch there is nothing to report here
            off = 0 if w.seen[0]['at'][1] > 0 else 1
            if idx < off:
                continue
            for kind in ('inputs', 'outputs'):
                for p, x in snap[kind].items():
                    log = logs['MonitorInOuts_' + l][kind][p]
                    check(len(w.seen) - off <= len(log['min']) <= len(w.seen),
                          'in/out log of {} has {} entries', l,
                          len(log['min']))
                    expect_stats(log, idx - len(w.seen), stats(x),
                                 '%s of %s' % (kind, l))
            for kind in ('input_deltas', 'output_deltas'):
                for p, x in snap[kind].items():
                    log = logs['MonitorDeltas_' + l][kind][p]
                    expect_stats(log, idx - len(w.seen), stats(x),
                                 '%s of %s' % (kind, l))
            for p, x in snap['internals'].items():
                if x.size:
                    expect_stats(logs['MonitorDeltas_' + l][p],
                                 idx - len(w.seen), stats(x),
                                 'internals of ' + l)
        ctx.step()
    ctx.trace()
    ctx.state(net, case['b'], t, i)
    ctx.outcome(repr(sorted(logs)))
    # files are as of the last call
    saved = bs.Network.from_hdf5(os.path.join(tmp, 'net.h5'))
    got, want = get_params(saved), w.seen[-1]['params']
    check(set(got) == set(want), 'parameters of the saved network')
    for k in want:
        check(np.array_equal(got[k], want[k]), 'saved network: parameter {} '
              'is not the one of the last call', k)
    check_log_file(os.path.join(tmp, 'logs.h5'), tr, w, t)
    hook = [h for h in tr.hooks.values() if isinstance(h, H.InfoUpdater)][0]
    e, u = w.seen[-1]['at']
    info = hook.run.info
    check(info['epoch_nr'] == e and info['update_nr'] == u, 'InfoUpdater '
          'reports {} instead of {}', (info['epoch_nr'], info['update_nr']),
          (e, u))
    check(info['nr_parameters'] == sum(x.size for x in want.values()),
          'InfoUpdater: number of parameters')
    check(info['logs'] == logs, 'InfoUpdater: logs')


def check_log_file(path, tr, w, t):
    with h5py.File(path, 'r') as f:
        def walk(g, logs, where):
            for k, v in logs.items():
                if isinstance(v, dict):
                    check(k in g, 'log file: {}/{} is missing', where, k)
                    walk(g[k], v, where + '/' + k)
                    continue
                if k not in g:
                    check(where == '/rolling_training', 'log file: {}/{} is '
                          'missing', where, k)
                    continue
                x = np.array(g[k])
                check(len(x) <= len(v) and np.array_equal(
                    x, np.array(v[:len(x)])), 'log file: {}/{} has {} '
                    'instead of {}', where, k, x, v)
                if where not in ('/rolling_training',):
                    check(len(x) == len(v), 'log file: {}/{} has {} entries, '
                          'expected {}', where, k, len(x), len(v))
            for k in g:
                check(k in logs, 'log file: extra entry {}/{}', where, k)
        logs = {k: v for k, v in tr.logs.items()}
        if 'rolling_training' not in f:
            logs.pop('rolling_training', None)
        walk(f, logs, '')


# ------------------------------------------------- unchanged trajectory --

_base = {}


def trail(w, n):
    return [(s['at'], {k: v.tobytes() for k, v in s['params'].items()})
            for s in w.seen], {k: v.tobytes()
                               for k, v in get_params(n).items()}


def silent(case, ctx):
    net, st = case['net'], case['st']
    mons = [MONITORS[i] for i in case['combo']]
    # evaluating on the training iterator itself may advance its shuffling
    shuffle = 'loss_train' not in mons
    for b in (2, 5):
        key = (net, st, b, shuffle)
        if key not in _base:
            n, tr, w, _, _, _ = train(net, st, [], b, 'update', 1, None,
                                      watch=False, shuffle=shuffle)
            _base[key] = trail(w, n), tr.logs['rolling_training']
        for i in (1, 2):
            tmp = tempfile.mkdtemp()
            n, tr, w, d, v, _ = train(net, st, mons, b, 'update', i, tmp,
                                      watch=False, shuffle=shuffle)
            (ref, refp), roll = _base[key]
            got, gotp = trail(w, n)
            check(got == [r for r in ref if r[0][1] % i == 0] and
                  gotp == refp, 'training {} with {} (batch size {}) and '
                  'monitors {} gives other parameters than without', net, st,
                  b, mons)
            check(tr.logs['rolling_training'] == roll, 'training {} with '
                  'monitors {}: training losses {} instead of {}', net, mons,
                  tr.logs['rolling_training'], roll)
            ctx.step(len(got))
            ctx.state(net, st, case['combo'], b, i)
    ctx.trace()


class Halt(H.Hook):
    """Asks to stop at a certain epoch or update."""
    at = None

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        n = epoch_nr if self.timescale == 'epoch' else update_nr
        if self.at is not None and n >= self.at:
            raise StopIteration()


STOPS = [('epoch', 1), ('epoch', 2), ('update', 1), ('update', 2)]


def history(net, mons, b, calls, first, evaluate, tmp):
    """Several calls of train with the same trainer."""
    n = fresh(net)
    tr = Trainer(MomentumStepper(0.2, 0.5), verbose=False)
    halts = [Halt('stop_' + t, t, 1) for t in ('epoch', 'update')]
    for h in halts if first else ():
        tr.add_hook(h)
    for m in mons:
        add_monitor(tr, m, net, 'epoch', 1, tmp)
    for h in () if first else halts:
        tr.add_hook(h)
    v = Minibatches(3, False, cut_according_to=None, **data(net, 4, 'valid'))
    out = []
    for j, (t, k) in enumerate(calls):
        it = Minibatches(b, False, cut_according_to=None,
                         **data(net, 5, 'train'))
        for h in halts:
            h.at = None
        at = tr.current_epoch_nr if t == 'epoch' else tr.current_update_nr
        halts[t == 'update'].at = at + k
        with contextlib.redirect_stdout(io.StringIO()):
            tr.train(n, it, valid=v)
            if evaluate:
                tr.evaluate(n, valid=v, training_data_iter=it)
        out.append((tr.current_epoch_nr, tr.current_update_nr,
                    n.get('parameters').tolist(),
                    tr.logs['rolling_training']['total_loss'][:]))
    return out


def again(case, ctx):
    """Monitors do not affect training that is continued, either."""
    net = case['net']
    mons = [MONITORS[i] for i in case['combo']]
    for b in (2, 5):
        for calls in itertools.product(STOPS, repeat=case['calls']):
            key = net, b, calls
            if key not in _base:
                _base[key] = history(net, [], b, calls, False, False, None)
            for first in (0, 1):
                for ev in (0, 1):
                    tmp = tempfile.mkdtemp()
                    got = history(net, mons, b, calls, first, ev, tmp)
                    for j, (g, w) in enumerate(zip(got, _base[key])):
                        check(g == w, 'call {} of the history {} with '
                              'monitors {}{}: epoch {}, update {} instead of '
                              '{}, {}, parameters the same: {}, losses {} '
                              'instead of {}', j + 1, calls, mons,
                              ' and evaluations' if ev else '', g[0], g[1],
                              w[0], w[1], g[2] == w[2], g[3], w[3])
                    ctx.step(got[-1][1])
                    ctx.state(net, case['combo'], b, calls, first, ev)
    ctx.trace()


# ---------------------------------------------------------- best network --

class Feed(H.Hook):
    """Logs a history and gives the network other parameters every time."""

    def __init__(self, hist, pre, **kw):
        super(Feed, self).__init__(**kw)
        self.hist, self.pre, self.n = hist, pre, 0
        self.params = []
        self.logged = []

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if epoch_nr == 0 and self.pre is None:
            return None
        p = np.arange(net.buffer.parameters.size) + 100.0 * len(self.logged)
        net.handler.set_from_numpy(net.buffer.parameters, p)
        v = self.pre if epoch_nr == 0 else self.hist[self.n]
        self.n += epoch_nr > 0
        self.logged.append(v)
        self.params.append(p)
        return {'x': v}


class After(H.Hook):
    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        feed, best = self.feed, self.best
        top, params, at = None, None, None
        for v, p in zip(feed.logged, feed.params):
            base = INF if best.criterion == 'min' else -INF
            top = base if top is None else top
            if (v < top) if best.criterion == 'min' else (v > top):
                top, params = v, p
        what = 'history %s (%s)' % (feed.logged, best.criterion)
        if params is None:
            if best.filename is None:
                got = best.load_best_network()
                check(got is None, '{}: a network was kept: {}', what, got)
            else:
                check(not os.path.exists(best.filename), '{}: a network was '
                      'saved', what)
        else:
            got = best.load_best_network()
            if best.filename is not None:
                got = got.get('parameters')
            got = np.array(got)
            check(np.array_equal(got, params), '{}: the kept parameters are '
                  '{}, those of the best time are {}', what, got, params)
        self.count += 1


def best(case, ctx):
    conv = {'nan': NAN, 'inf': INF, '-inf': -INF}
    alpha = [conv.get(a, a) for a in case['alpha']]
    t, i = case['t'], case['i']
    n = fresh('ff')
    d = data('ff', 2, 'b')
    from brainstorm.training.steppers import ForwardStepper
    for hist in itertools.product(alpha, repeat=case['n']):
        tmp = tempfile.mkdtemp()
        fn = os.path.join(tmp, 'best.h5') if case['store'] == 'file' else \
            None
        tr = Trainer(ForwardStepper(), verbose=False)
        feed = Feed(hist, case['pre'], name='feed', timescale=t, interval=i)
        b = H.SaveBestNetwork('feed.x', fn, case['crit'], timescale=t,
                              interval=i)
        a = After('after', t, i)
        a.feed, a.best, a.count = feed, b, 0
        tr.add_hook(feed)
        tr.add_hook(b)
        tr.add_hook(a)

        class End(H.Hook):
            def __call__(self, epoch_nr, update_nr, net, stepper, logs):
                if feed.n == len(hist):
                    raise StopIteration()
        tr.add_hook(End('end', t, i))
        tr.train(n, Minibatches(1, False, **d))
        check(a.count == len(hist) + 1, 'hook calls')
        if fn and os.path.exists(fn):
            os.unlink(fn)
        os.rmdir(tmp)
        # afterwards nothing may disturb what was kept
        if fn is None and b.load_best_network() is not None:
            keep = np.array(b.load_best_network())
            n.handler.set_from_numpy(n.buffer.parameters, keep * 0 - 7.0)
            check(np.array_equal(keep, b.load_best_network()),
                  'the kept parameters changed with the network')
        ctx.step(len(hist))
        ctx.state(case['crit'], case['store'], t, i, case['pre'], repr(hist))
        ctx.outcome(b.best_t, case['store'])
    ctx.trace()


def run(case, ctx):
    k = case['k']
    if k == 'best':
        best(case, ctx)
    elif k == 'values':
        values(case, ctx)
    elif k == 'silent':
        silent(case, ctx)
    elif k == 'again':
        again(case, ctx)
    elif k == 'bar':
        full = '[====1====2====3====4====5====6====7====8====9====0]'
        for N in list(range(2, 12)) + [49, 50, 51, 73]:
            n, tr, w, d, v, out = train('hw', 'sgd', ['bar'], 1, 'epoch', 1,
                                        None, epochs=2, watch=False, N=N)
            lines = [x for x in out.split('\n') if x.strip()]
            check(len(lines) == 2 and all(
                x.startswith(full + ' Took:') for x in lines),
                'progress bar for {} batches per epoch: {!r}', N, out)
            ctx.step(N)
            ctx.state('bar', N)
        ctx.trace()
    elif k == 'info':
        # nr_parameters is written once, logs are the trainer's
        n = fresh('ff')
        r = Run()
        r.info['other'] = 1
        tr = Trainer(SgdStepper(), verbose=False)
        tr.add_hook(H.InfoUpdater(r))
        tr.add_hook(H.StopAfterEpoch(2))
        tr.train(n, Undivided(**data('ff', 2, 'b')))
        check(r.info['other'] == 1 and r.info['epoch_nr'] == 2,
              'InfoUpdater: {}', sorted(r.info))
        ctx.trace()
        ctx.state('info')
    elif k == 'stepattr':
        class Sched(object):
            def __call__(self, *a, **kw):
                names = ('epoch_nr', 'update_nr', 'timescale', 'interval',
                         'net', 'stepper', 'logs')
                kw.update(zip(names, a))
                self.calls.append((kw['epoch_nr'], kw['update_nr'],
                                   kw['timescale'], kw['interval']))
                check(kw['net'] is self.net and kw['stepper'] is self.st,
                      'schedule got foreign objects')
                check(isinstance(kw['logs'], dict), 'schedule got no logs')
                return 0.01 * len(self.calls)

        class Look(H.Hook):
            def __call__(self, epoch_nr, update_nr, net, stepper, logs):
                self.seen.append((stepper.learning_rate, stepper.momentum))
        for attr in ('learning_rate', 'momentum'):
            for t in ('epoch', 'update'):
                for i in (1, 2, 3):
                    for b in (1, 2):
                        n = fresh('ff')
                        st = MomentumStepper(0.5, 0.25)
                        tr = Trainer(st, verbose=False)
                        s = Sched()
                        s.calls, s.net, s.st = [], n, st
                        tr.add_hook(H.ModifyStepperAttribute(
                            s, attr, timescale=t, interval=i))
                        lk = Look('look', 'update')
                        lk.seen = []
                        tr.add_hook(lk)
                        tr.add_hook(H.StopAfterEpoch(4))
                        tr.train(n, Minibatches(b, False,
                                                **data('ff', 4, 'b')))
                        nb = 4 // b
                        calls, val, want = [], None, []
                        for u in range(0, 4 * nb + 1):
                            e = -(-u // nb)
                            if t == 'update' and u % i == 0:
                                calls.append((e, u, t, i))
                            want.append(len(calls))
                            if t == 'epoch' and u % nb == 0 and e % i == 0:
                                calls.append((e, u, t, i))
                        check(s.calls == calls, 'schedule called at {}, '
                              'expected {}', s.calls, calls)
                        got = [x[attr == 'momentum'] for x in lk.seen]
                        init = 0.5 if attr == 'learning_rate' else 0.25
                        exp = [0.01 * c if c else init for c in want]
                        expect_close(got, exp, 'values of %s' % attr, 1e-12)
                        other = {x[attr != 'momentum'] for x in lk.seen}
                        check(len(other) == 1, 'another attribute changed')
                        ctx.step(len(got))
                        ctx.state('attr', attr, t, i, b)
        try:
            tr = Trainer(SgdStepper(), verbose=False)
            tr.add_hook(H.ModifyStepperAttribute(Sched(), 'momentum'))
            tr.add_hook(H.StopAfterEpoch(1))
            with contextlib.redirect_stderr(io.StringIO()):
                tr.train(fresh('ff'), Undivided(**data('ff', 2, 'b')))
        except AssertionError:
            pass
        else:
            raise Violation('scheduling a missing attribute was accepted')
        ctx.trace()
    elif k == 'savelogs':
        class Val(H.Hook):
            def __call__(self, epoch_nr, update_nr, net, stepper, logs):
                return self.f(epoch_nr)
        forms = [lambda e: e, lambda e: 0.5 * e, lambda e: {'a': e, 'b': {
            'c': -e}}, lambda e: np.arange(3.0) + e, lambda e: None]
        for fs in itertools.permutations(range(5), 2):
            for t in ('epoch', 'update'):
                for i in (1, 2, 3):
                    tmp = tempfile.mkdtemp()
                    fn = os.path.join(tmp, 'l.h5')
                    with open(fn, 'w') as f:
                        f.write('old contents')
                    os.unlink(fn)
                    tr = Trainer(SgdStepper(), verbose=False)
                    for q in fs:
                        h = Val('v%d' % q, t, 1)
                        h.f = forms[q]
                        tr.add_hook(h)
                    tr.add_hook(H.SaveLogs(fn, timescale=t, interval=i))

                    class Cmp(H.Hook):
                        def __call__(s, epoch_nr, update_nr, net, stepper,
                                     logs):
                            check_log_file(fn, tr, None, t)
                    tr.add_hook(Cmp('cmp', t, i))
                    tr.add_hook(H.StopAfterEpoch(3))
                    tr.train(fresh('ff'), Minibatches(1, False, **data(
                        'ff', 2, 'b')))
                    check(os.path.exists(fn), 'no log file')
                    ctx.step()
                    ctx.state('savelogs', fs, t, i)
        ctx.trace()
    else:
        for mk in (lambda: H.MonitorLoss('nope'),
                   lambda: H.MonitorScores('nope', [])):
            tr = Trainer(SgdStepper(), verbose=False)
            tr.add_hook(mk())
            tr.add_hook(H.StopAfterEpoch(1))
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    tr.train(fresh('ff'), Undivided(**data('ff', 2, 'b')))
            except KeyError:
                ctx.step()
            else:
                raise Violation('monitoring missing data was accepted')
        for cls in (H.MonitorLayerParameters, H.MonitorLayerGradients,
                    H.MonitorLayerDeltas, H.MonitorLayerInOuts):
            tr = Trainer(SgdStepper(), verbose=False)
            tr.add_hook(cls('nope'))
            tr.add_hook(H.StopAfterEpoch(1))
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    tr.train(fresh('ff'), Undivided(**data('ff', 2, 'b')))
            except AssertionError:
                ctx.step()
            else:
                raise Violation('monitoring a missing layer was accepted')
        for c in ('mini', None, 'Max'):
            try:
                H.SaveBestNetwork('x', None, c)
            except AssertionError:
                ctx.step()
            else:
                raise Violation('criterion %r accepted' % (c,))
        ctx.trace()
        ctx.state('errors')
