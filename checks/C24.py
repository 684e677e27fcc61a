"""The debug handler changes nothing but reports what is wrong."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile

import h5py
import numpy as np

import brainstorm as bs
from brainstorm import hooks as H
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.handlers import DebugHandler, NumpyHandler
from brainstorm.tools import evaluate, extract, extract_and_save
from brainstorm.training.schedules import Linear
from brainstorm.training.steppers import (ForwardStepper, MomentumStepper,
                                          NesterovStepper, SgdStepper)
from brainstorm.training.trainer import Trainer
from brainstorm.value_modifiers import (ClipValues, ConstrainL2Norm,
                                        FreezeValues, L1Decay, L2Decay,
                                        MaskValues)
from checks import C01, C05, C15
from checks.specs import UNARY, Builder, O
from vmc.core import Violation, check
from vmc.grad import input_data
from vmc.nets import gen, generic_params, make_net, set_params

BOUNDS = {
    'quick': '27 networks covering every layer type, every layer with '
             'siblings, every layer option at the ends of its range and every activation function, 30 image stacks: float32/float64 x 5 sizes x '
             'evaluation / training / backward / repeated backward / '
             'context, every buffer compared bit by bit; 5 networks x 6 '
             'steppers x 14 modifier settings x 2 batch sizes of training; '
             'every monitor and all together; evaluate, extract, saving and '
             'loading; non-finite values entering at every input entry and '
             'parameter entry, and arising from 6 magnitudes of data x 6 of '
             'parameters',
    'thorough': 'as quick with all pairs of modifiers and monitors',
}
SIZES = [(1, 1), (2, 3), (4, 2), (1, 5), (3, 1)]


def image_nets():
    for kx, ky, st, p in itertools.product((1, 2, 3), (1, 2), (1, 2),
                                           (0, 1)):
        for typ in ('conv', 'max', 'avg'):
            if (kx + ky + st + p) % 2 and typ != 'conv':
                continue
            b = Builder(x=[4, 3, 2])
            if typ == 'conv':
                o = b.add('c', 'Convolution2D', O('Input', 'x'), padding=p,
                          num_filters=2, kernel_size=[kx, ky],
                          stride=[st, 1], activation='rel')
            else:
                o = b.add('c', 'Pooling2D', O('Input', 'x'), type=typ,
                          kernel_size=[kx, ky], stride=[1, st], padding=p)
            b.loss('loss', o)
            yield b.spec()


def all_nets():
    out = list(C05.NETS)
    b = Builder(x=[3])
    o = b.add('d', 'Dropout', O('Input', 'x'), drop_prob=0.4)
    b.loss('loss', b.add('h', 'FullyConnected', o, size=2))
    out.append(b.spec())
    for typ, kw in C01.SIBLINGS:
        out.append(C01.sibling(typ, kw, 'bz', True, 'FullyConnected'))
    for typ, kw in OPTIONS:
        for sib in ('b', 'z'):
            out.append(C01.sibling(typ, kw, sib, sib == 'b',
                                   'FullyConnected'))
    return out + list(image_nets())


# options at the ends of their ranges and all activation functions
OPTIONS = [('Dropout', dict(drop_prob=p)) for p in (0.0, 0, 0.9, 1e-6)] + [
    ('DeltasScaling', dict(factor=f)) for f in (0.0, 0, 1, -3, 1e-8)] + [
    ('BatchNorm', dict(decay=d, epsilon=e)) for d, e in
    ((0.0, 1e-5), (1.0, 1e-5), (0.9, 1e-12), (0.5, 1))] + [
    ('Loss', dict(importance=i)) for i in (0, 0.0, 2, -1.5)] + [
    (typ, dict(size=n, activation=a)) for typ in
    ('FullyConnected', 'Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm')
    for n, a in ((2, 'linear'), (1, 'sigmoid'), (3, 'tanh'), (2, 'rel'),
                 (2, 'el'))] + [
    ('Convolution2D', dict(num_filters=1, kernel_size=[1, 1], activation=a))
    for a in ('linear', 'sigmoid', 'rel', 'el')] + [
    ('Elementwise', dict(activation=a)) for a in
    ('linear', 'sigmoid', 'tanh', 'rel', 'el')]
ALL = all_nets()
STEPPERS = dict(
    sgd=lambda: SgdStepper(0.1), sgds=lambda: SgdStepper(0.3),
    mom=lambda: MomentumStepper(0.1, 0.5),
    moms=lambda: MomentumStepper(0.2, 0.3, scale_learning_rate=False),
    nest=lambda: NesterovStepper(0.1, 0.7), fwd=lambda: ForwardStepper())


def shapes_of(net):
    return {l: {p: net.buffer[l].parameters[p].shape
                for p in net.buffer[l].parameters.keys()}
            for l in net.layers}


def half(shape):
    return (np.arange(int(np.prod(shape))) % 2.0).reshape(shape)


def per_param(net, f):
    return {l: {p: f(s) for p, s in d.items() if p != 'sigma'}
            for l, d in shapes_of(net).items() if d}


MODS = {
    'none': lambda n: None,
    'w-clip': lambda n: n.set_weight_modifiers(ClipValues(-0.3, 0.4)),
    'w-l2': lambda n: n.set_weight_modifiers(
        {l: {p: ConstrainL2Norm(0.5) for p, s in d.items() if len(s) > 1}
         for l, d in shapes_of(n).items()
         if any(len(s) > 1 for s in d.values())}),
    'w-mask': lambda n: n.set_weight_modifiers(
        per_param(n, lambda s: MaskValues(half(s)))),
    'w-freeze': lambda n: n.set_weight_modifiers(FreezeValues()),
    'w-freeze2': lambda n: n.set_weight_modifiers(
        per_param(n, lambda s: FreezeValues(half(s)))),
    'w-list': lambda n: n.set_weight_modifiers(
        [ClipValues(-0.5, 0.5), ClipValues(0.01, 1)]),
    'g-clip': lambda n: n.set_gradient_modifiers(ClipValues(-0.1, 0.2)),
    'g-l1': lambda n: n.set_gradient_modifiers(L1Decay(0.1)),
    'g-l2': lambda n: n.set_gradient_modifiers(L2Decay(0.1)),
    'g-mask': lambda n: n.set_gradient_modifiers(
        per_param(n, lambda s: MaskValues(half(s)))),
    'g-norm': lambda n: n.set_gradient_modifiers(
        {l: {p: ConstrainL2Norm(0.2) for p, s in d.items() if len(s) > 1}
         for l, d in shapes_of(n).items()
         if any(len(s) > 1 for s in d.values())}),
    'g-list': lambda n: n.set_gradient_modifiers(
        [L2Decay(0.2), ClipValues(-0.2, 0.2), L1Decay(0.01)]),
    'both': lambda n: (n.set_weight_modifiers(ClipValues(-0.6, 0.4)),
                       n.set_gradient_modifiers(L2Decay(0.1))),
}


def cases(tier):
    th = tier == 'thorough'
    for i in range(len(ALL)):
        for dt in ('float64', 'float32'):
            yield dict(k='passes', i=i, dt=dt)
        yield dict(k='enter', i=i)
        yield dict(k='arise', i=i)
    combos = [[m] for m in sorted(MODS)]
    if th:
        combos += [list(c) for c in itertools.permutations(sorted(MODS), 2)]
    for net in sorted(C15.NETS):
        for st in sorted(STEPPERS):
            for m in combos:
                yield dict(k='train', net=net, st=st, mods=m)
        n = len(C15.MONITORS)
        mons = [[i] for i in range(n)] + [list(range(n))]
        if th:
            mons += [list(c) for c in itertools.combinations(range(n), 2)]
        for c in mons:
            yield dict(k='monitor', net=net, combo=c)
        yield dict(k='tools', net=net)


def debug(dt='float64'):
    return DebugHandler(NumpyHandler(np.dtype(dt).type))


def plain(dt='float64'):
    return NumpyHandler(np.dtype(dt).type)


def arr(a):
    return a if isinstance(a, np.ndarray) else a.array


def buffers(net):
    """Every buffer of a network as raw bytes."""
    out = {}
    for l in net.layers:
        for cat in net.buffer[l].keys():
            for n in net.buffer[l][cat].keys():
                out[l, cat, n] = arr(net.buffer[l][cat][n]).copy()
    out['parameters'] = arr(net.buffer.parameters).copy()
    out['gradients'] = arr(net.buffer.gradients).copy()
    return out


def compare(a, b, what):
    check(set(a) == set(b), '{}: other buffers', what)
    for k in a:
        check(a[k].dtype == b[k].dtype and a[k].shape == b[k].shape and
              np.array_equal(a[k], b[k]), '{}: {} is {} with and {} without '
              'the debug handler', what, k, b[k], a[k])


def pair(spec, dt):
    out = []
    for make in (plain, debug):
        bs.global_rnd.set_seed(5)
        net = make_net(spec, handler=make(dt))
        set_params(net, {k: v.astype(dt) for k, v in
                         generic_params(net, 'c24').items()})
        net.handler  # noqa
        out.append(net)
    return out


def passes(case, ctx):
    spec, dt = ALL[case['i']], case['dt']
    a, b = pair(spec, dt)
    context = [None, None]
    for step, (T, B) in enumerate(SIZES + SIZES[::-1]):
        for mode in ('e', 't', 'tb', 'bb', 'c'):
            if mode == 'c' and (context[0] is None or context[0][1] != B):
                continue
            d = input_data(spec, T, B, ('c24', step))
            both = []
            for j, net in enumerate((a, b)):
                net.provide_external_data(d)
                net.forward_pass(
                    training_pass=mode != 'e',
                    context=context[j][0] if mode == 'c' else None)
                if mode in ('tb', 'bb', 'c'):
                    net.backward_pass()
                if mode == 'bb':
                    net.backward_pass()
                both.append(buffers(net))
            compare(both[0], both[1], '%s pass of size %s' % (mode, (T, B)))
            check(a.get_loss_values() == b.get_loss_values(),
                  'other losses with the debug handler')
            ctx.step()
            ctx.state(case['i'], dt, step, mode)
            if mode == 'tb':
                context = [(n.get_context(), B) for n in (a, b)]
    ctx.trace()


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def enter(case, ctx):
    """Non-finite data and parameters are reported where they enter."""
    spec = ALL[case['i']]
    net = pair(spec, 'float64')[1]
    d = input_data(spec, 2, 2, 'enter')
    for bad in (np.nan, np.inf, -np.inf):
        for name in sorted(d):
            for at in range(min(d[name].size, 12)):
                x = {k: v.copy() for k, v in d.items()}
                x[name].flat[at] = bad
                check(raises(lambda: net.provide_external_data(x)),
                      '{} in {} was not reported', bad, name)
                ctx.step()
        for l, p in generic_params(net, 0):
            v = net.get('%s.parameters.%s' % (l, p))
            for at in range(min(v.size, 6)):
                w = v.copy()
                w.flat[at] = bad
                check(raises(lambda: net.handler.set_from_numpy(
                    net.buffer[l].parameters[p], w)),
                    '{} in parameter {} of {} was not reported', bad, p, l)
            net.handler.set_from_numpy(net.buffer[l].parameters[p], v)
    ctx.state(case['i'])
    ctx.trace()


def arise(case, ctx):
    """Whatever becomes non-finite during a pass is reported."""
    spec = ALL[case['i']]
    d = input_data(spec, 3, 2, 'arise')
    for sd, sp in itertools.product((1.0, 30.0, 1e10, 1e150, 1e200, 1e300),
                                    (0.0, 1.0, 1e5, 1e150, 1e200, 1e300)):
        res = []
        for net in pair(spec, 'float64'):
            data = {k: v * sd if k[0] not in 'cbum' else v
                    for k, v in d.items()}
            net.provide_external_data(data)
            set_params(net, {k: v * sp if k[1] not in ('timing', 'sigma')
                             else v for k, v in
                             generic_params(net, 'c24').items()})
            finite = []
            try:
                net.forward_pass(training_pass=True)
                net.backward_pass()
                err = None
            except ValueError as e:
                err = e
            if not res:
                check(err is None, 'the plain handler reported {}', err)
                finite = [np.isfinite(v).all() for k, v in
                          buffers(net).items()]
                res.append(all(finite))
                res.append(buffers(net))
            elif err is None:
                check(res[0], 'non-finite values were not reported for data '
                      'of size {} and parameters of size {}', sd, sp)
                compare(res[1], buffers(net), 'large values')
            ctx.outcome(res[0], err is None)
            ctx.step()
        ctx.state(case['i'], sd, sp)
    ctx.trace()


class Trail(H.Hook):
    def __init__(self):
        super(Trail, self).__init__('trail', 'update', 1)
        self.seen = []

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.seen.append(buffers(net)
                         if epoch_nr else net.get('parameters').copy())


def train(case, ctx):
    net = case['net']
    for b in (2, 5):
        runs = []
        for make in (plain, debug):
            n = C15.fresh(net)
            n.set_handler(make())
            (n.handler.handler if make is debug else
             n.handler).rnd.set_seed(7)
            for m in case['mods']:
                MODS[m](n)
            tr = Trainer(STEPPERS[case['st']](), verbose=False)
            t = Trail()
            tr.add_hook(t)
            if case['st'] in ('sgds', 'moms'):
                tr.add_hook(H.ModifyStepperAttribute(
                    Linear(0.3, 0.1, 3), 'learning_rate', timescale='update'))
            tr.add_hook(H.StopAfterEpoch(2))
            it = Minibatches(b, True, cut_according_to=None,
                             **C15.data(net, 5, 'train'))
            it.rnd.set_seed(8)
            tr.train(n, it)
            runs.append((t.seen, tr.logs, n))
        (s0, l0, n0), (s1, l1, n1) = runs
        check(len(s0) == len(s1), '{} instead of {} updates with the debug '
              'handler', len(s1), len(s0))
        for i, (x, y) in enumerate(zip(s0[1:], s1[1:])):
            compare(x, y, 'update %d' % (i + 1))
            ctx.step()
        check(l0 == l1, 'logs {} with and {} without the debug handler', l1,
              l0)
        compare(buffers(n0), buffers(n1), 'after training')
        ctx.state(case, b)
    ctx.trace()


def monitor(case, ctx):
    net = case['net']
    mons = [C15.MONITORS[i] for i in case['combo']]
    runs = []
    keep = C15.fresh
    for make in (plain, debug):
        def fresh(name):
            n = keep(name)
            n.set_handler(make())
            (n.handler.handler if make is debug else
             n.handler).rnd.set_seed(7)
            return n
        tmp = tempfile.mkdtemp()
        C15.fresh = fresh
        try:
            n, tr, w, d, v, out = C15.train(net, 'momentum', mons, 2, 'epoch',
                                            1, tmp, watch=False)
            files = {}
            for f in sorted(os.listdir(tmp)):
                with h5py.File(os.path.join(tmp, f), 'r') as h:
                    found = {}
                    h.visititems(lambda k, o: found.__setitem__(k, o[()])
                                 if hasattr(o, 'dtype') and
                                 k != 'description' else None)
                files[f] = found
            runs.append((buffers(n), tr.logs, files))
        finally:
            C15.fresh = keep
            shutil.rmtree(tmp)
    compare(runs[0][0], runs[1][0], 'training with %s' % mons)
    check(repr(runs[0][1]) == repr(runs[1][1]), 'logs {} with and {} without '
          'the debug handler', runs[1][1], runs[0][1])
    check(set(runs[0][2]) == set(runs[1][2]), 'other files')
    for f, found in runs[0][2].items():
        other = runs[1][2][f]
        check(set(found) == set(other), 'other entries in {}', f)
        for k in found:
            check(np.array_equal(found[k], other[k]), '{} differs in {}', k,
                  f)
    ctx.step()
    ctx.state(case)
    ctx.trace()


def tools(case, ctx):
    net = case['net']
    d = C15.data(net, 5, 'tools')
    runs = []
    for make in (plain, debug):
        n = C15.fresh(net)
        n.set_handler(make())
        n.output_name = 'out.outputs.predictions'
        res = []
        tmp = tempfile.mkdtemp()
        try:
            for it in (lambda: Undivided(**d), lambda: Minibatches(
                    2, False, cut_according_to=None, **d)):
                res.append(evaluate(n, it(), C15.scorers(net),
                                    mask_name='mask' if net == 'rnn' else ''))
                names = ['out.outputs.predictions', 'h.outputs.default'
                         if 'h' in n.layers else 'Input.outputs.default',
                         'Input.outputs.default']
                ex = extract(n, it(), names)
                res.append(sorted((k, v.shape, v.tobytes())
                                  for k, v in ex.items()))
                fn = os.path.join(tmp, 'x.h5')
                with contextlib.redirect_stdout(io.StringIO()):
                    extract_and_save(n, it(), names, fn)
                with h5py.File(fn, 'r') as f:
                    got = {}
                    f.visititems(lambda k, o: got.__setitem__(
                        k, o[()]) if hasattr(o, 'dtype') else None)
                res.append(sorted((k, v.shape, v.tobytes())
                                  for k, v in got.items()))
                os.unlink(fn)
            fn = os.path.join(tmp, 'n.h5')
            n.save_as_hdf5(fn)
            m = bs.Network.from_hdf5(fn)
            check(type(m.handler) is type(n.handler), 'the handler got lost')
            m.provide_external_data(d)
            n.provide_external_data(d)
            for x in (n, m):
                x.forward_pass()
                res.append(x.get_loss_values())
            compare(buffers(n), buffers(m), 'loaded network')
        finally:
            shutil.rmtree(tmp)
        runs.append(res)
    for x, y in zip(*runs):
        check(x == y, 'tools gave {} with and {} without the debug handler',
              str(y)[:200], str(x)[:200])
        ctx.step()
    ctx.state(case)
    ctx.trace()


def run(case, ctx):
    globals()[case['k']](case, ctx)
