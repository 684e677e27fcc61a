"""Interrupted and failing operations leave everything usable."""
import copy
import gc
import os
import shutil
import sys
import tempfile

import h5py
import numpy as np

import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import initializers as ini
from brainstorm import value_modifiers as vm
from brainstorm.data_iterators import Minibatches
from brainstorm.describable import create_from_description, get_description
from brainstorm.handlers import DebugHandler, NumpyHandler
from brainstorm.initializers import evaluate_initializer
from brainstorm.tools import evaluate, extract, extract_and_save
from brainstorm.training import schedules as sch
from brainstorm.training import steppers as st
from brainstorm.training import Trainer
from brainstorm.utils import NetworkValidationError
from checks import C15
from checks.C25 import quiet, same, where
from vmc.core import Violation, check
from vmc.nets import architecture, gen, generic_params, set_params

BOUNDS = {
    'quick': 'every call of a handler operation, layer, iterator, scorer, '
             'hook, stepper, schedule, initialiser, modifier or HDF5 '
             'function, before and after it, made to fail in 38 operations '
             'on 5 networks (passes, data of other sizes, context, '
             'initialisation, modifiers, handler switches, saving, loading, '
             'evaluation, extraction, all steppers, training with 9 hooks): '
             'by an interrupt followed by the operation again, and by an '
             'error followed by other operations; by 5 further errors for '
             'what the caller sees; the recurrent network only in passes, '
             'data and settings, training on 2 networks; all rejected '
             'assignments of 11 kinds in 4 states; all truncations of a '
             'saved network',
    'thorough': 'all operations on all networks with all continuations after '
                'both kinds, and interrupts at every executed line of the '
                'library in the same operations',
}


# ------------------------------ fault points -------------------------------

class Interrupt(KeyboardInterrupt):
    pass


def _kind(base):
    return type(str('Broken' + base.__name__), (base,), {})


KINDS = [Interrupt] + [_kind(b) for b in (
    KeyError, MemoryError, TypeError, ValueError, AttributeError,
    AssertionError)]


class Faults(object):
    """Counts the calls, and lets one of them fail."""
    on = False
    n = 0
    k = 0
    kind = Interrupt
    raised = None

    def point(self):
        if not self.on:
            return
        self.n += 1
        if self.n == self.k:
            self.on = False
            self.raised = self.kind('fault %d' % self.k)
            raise self.raised


F = Faults()


def guard(f):
    def call(*args, **kwargs):
        F.point()
        res = f(*args, **kwargs)
        F.point()
        return res
    call.__name__ = getattr(f, '__name__', 'call')
    return call


class FragileHandler(NumpyHandler):
    """Does the same, but can fail at any call."""


for _n in dir(NumpyHandler):
    if not _n.startswith('_') and callable(getattr(NumpyHandler, _n)) and \
            not isinstance(getattr(NumpyHandler, _n), type):
        setattr(FragileHandler, _n, guard(getattr(NumpyHandler, _n)))


class OtherHandler(FragileHandler):
    pass


class FragileInit(ini.Gaussian):
    def __call__(self, shape):
        F.point()
        res = super(FragileInit, self).__call__(shape)
        F.point()
        return res


class FragileDecay(vm.L2Decay):
    def __call__(self, handler, parameters, gradients):
        F.point()
        super(FragileDecay, self).__call__(handler, parameters, gradients)
        F.point()


class FragileClip(vm.ClipValues):
    def __call__(self, handler, view):
        F.point()
        super(FragileClip, self).__call__(handler, view)
        F.point()


class FragileBatches(Minibatches):
    def __call__(self, handler):
        F.point()
        for batch in super(FragileBatches, self).__call__(handler):
            F.point()
            yield batch
        F.point()


class FragileSchedule(sch.Exponential):
    def __call__(self, *args, **kwargs):
        F.point()
        return super(FragileSchedule, self).__call__(*args, **kwargs)


WEAK = {}


def weaken(obj, methods):
    """The same object, but these methods can fail."""
    cls = type(obj)
    if cls not in WEAK:
        WEAK[cls] = type(str('Fragile' + cls.__name__), (cls,), {
            m: guard(getattr(cls, m)) for m in methods if hasattr(cls, m)})
    obj.__class__ = WEAK[cls]
    return obj


def _patch():
    """Saving and loading can fail at any call of h5py."""
    for cls, names in ((h5py.Group, ['create_dataset', '__setitem__',
                                     '__getitem__']),
                       (h5py.AttributeManager, ['create', '__getitem__',
                                                '__setitem__']),
                       (h5py.Dataset, ['__getitem__', '__setitem__'])):
        for name in names:
            old = getattr(cls, name)
            if getattr(old, 'fragile', False):
                continue
            new = guard(old)
            new.fragile = True
            setattr(cls, name, new)


_patch()


# --------------------------------- worlds ----------------------------------

OUT = 'out.outputs.predictions'
PARTS = sorted(C15.NETS)


def seed_handler(h):
    getattr(h, 'handler', h).rnd.set_seed(8)


class World(object):
    """A network with everything that is done to it."""

    def __init__(self, name, tmp):
        bs.global_rnd.set_seed(3)
        self.name, self.tmp = name, tmp
        net = bs.Network.from_architecture(architecture(C15.NETS[name]))
        net.set_handler(FragileHandler(np.float64))
        set_params(net, generic_params(net, 'c27'))
        net.output_name = OUT
        self.net = net
        self.trainer = self.context = None
        self.kept = {}
        for layer in net.layers.values():
            layer.forward_pass = guard(layer.forward_pass)
            layer.backward_pass = guard(layer.backward_pass)
        self.reseed()

    def reseed(self):
        bs.global_rnd.set_seed(9)
        self.net.rnd.set_seed(7)
        seed_handler(self.net.handler)

    def data(self, n):
        return C15.data(self.name, n, ('c27', n))

    def keep(self, key, make):
        """An object that is used again for the next operation."""
        if key not in self.kept:
            self.kept[key] = make()
        return self.kept[key]

    def iter(self, n, size=2):
        return self.keep(('iter', n, size), lambda: FragileBatches(
            size, False, **self.data(n)))

    def scorers(self):
        return [weaken(s, ['__call__'])
                for s in C15.scorers(self.name)]

    def params(self):
        return self.net.get('parameters')

    def settings(self):
        n = self.net
        return copy.deepcopy([
            n.initializers, get_description(n.weight_modifiers),
            get_description(n.gradient_modifiers), type(n.handler).__name__,
            n.output_name, n.architecture])

    def path(self, name):
        return os.path.join(self.tmp, name)


def results(w):
    net = w.net
    return [net.get_loss_values(), net.get(OUT)]


def everything(w):
    net, out = w.net, {}
    for l in net.layers:
        for cat in ('outputs', 'input_deltas', 'output_deltas', 'gradients'):
            if cat in net.buffer[l]:
                for n in net.buffer[l][cat].keys():
                    if l == 'Input' and cat == 'output_deltas' and \
                            n != 'default':
                        continue
                    out[l, cat, n] = net.get('%s.%s.%s' % (l, cat, n))
    return out


def fix(w, net=None):
    if w.name == 'bn':
        set_params(net or w.net, {('bn', 'sigma'): np.array([0.7, 1.0, 1.3])})


# ------------------------------- operations --------------------------------

OPS = {}


def op(name, pre='', keeps=True, nets=None):
    def add(f):
        OPS[name] = dict(run=f, pre=pre.split(), keeps=keeps, nets=nets)
        return f
    return add


for _k in (1, 2, 4):
    def _data(w, n=_k):
        w.net.provide_external_data(w.data(n))
    op('data%d' % _k, 'data2 train')(_data)


@op('part', 'data2 train')
def part(w):
    d = w.data(2)
    name = sorted(d)[0]
    w.net.provide_external_data({name: d[name]}, all_inputs=False)


@op('handled')
def handled(w):
    h = w.net.handler
    d = {k: v for k, v in w.data(2).items()}
    for k, v in d.items():
        a = h.allocate(v.shape)
        h.set_from_numpy(a, v)
        d[k] = a
    w.net.provide_external_data(d)


@op('eval', 'data2 train')
def eval_(w):
    w.net.forward_pass()
    return results(w)


@op('train', 'data2', keeps=None)
def train(w):
    w.net.forward_pass(training_pass=True)
    return results(w)


@op('back', 'data2 train')
def back(w):
    w.net.backward_pass()
    return everything(w)


@op('both', 'data4 gmods data2', keeps=None)
def both(w):
    w.net.forward_pass(training_pass=True)
    w.net.backward_pass()
    return everything(w)


@op('takectx', 'data2 eval', nets=['rnn'])
def takectx(w):
    w.context = w.net.get_context()
    return w.context


@op('usectx', 'data4 eval takectx data4', nets=['rnn', 'ff'])
def usectx(w):
    w.net.forward_pass(context=w.context)
    return results(w)


@op('get', 'data2 train back')
def get(w):
    return [w.net.get('parameters'), w.net.get('gradients'),
            w.net.get_input('default'), w.net.get_loss_values()]


def _setter(name, **kwargs):
    op(name, 'data2 train', keeps=False)(lambda w: (
        w.net.initialize(seed=4, **kwargs), fix(w))[0])


_setter('init', default_or_init_dict=FragileInit(0.5))
_setter('init2', default_or_init_dict={
    'default': FragileInit(0.3), 'h': {'default': FragileInit(0.4),
                                       'fallback': 0.2},
    'fallback': FragileInit(0.1)})
_setter('initfb', h={'default': ini.SparseInputs(FragileInit(0.5), 40)},
        fallback=FragileInit(0.6), default=ini.Orthogonal())


def weight_views(w, mod):
    return {l: {p: mod for p in v.parameters.keys()
                if p not in ('sigma', 'timing')}
            for l, v in w.net.buffer.items()
            if hasattr(v, 'keys') and 'parameters' in v and
            len(v.parameters.keys())}


@op('wmods', 'data2 train')
def wmods(w):
    w.net.set_weight_modifiers(weight_views(
        w, [FragileClip(-0.5, 0.5), FragileClip(-0.4, 0.6)]))


@op('gmods', 'data2 train')
def gmods(w):
    w.net.set_gradient_modifiers([FragileDecay(0.2), FragileClip(-1, 1)])


@op('applyw', 'wmods data2 train', keeps=False)
def applyw(w):
    w.net.apply_weight_modifiers()


@op('applyg', 'gmods data2 train back')
def applyg(w):
    # twice on the same gradients would not be the same
    w.net.backward_pass()
    w.net.apply_gradient_modifiers()
    return w.net.get('gradients')


for _n, _h in (('own', lambda: OtherHandler(np.float64)),
               ('single', lambda: OtherHandler(np.float32)),
               ('debug', lambda: DebugHandler(OtherHandler(np.float64)))):
    def _switch(w, h=_h):
        w.net.set_handler(h())
        seed_handler(w.net.handler)
    op('handler-' + _n, 'data2 train')(_switch)


@op('save', 'data2 train')
def save(w):
    f = w.path('n.hdf5')
    w.net.save_as_hdf5(f, 'comment')
    return [bs.Network.from_hdf5(f).get('parameters')]


@op('saveover', 'data2 train save gmods')
def saveover(w):
    w.net.save_as_hdf5(w.path('n.hdf5'))
    net = bs.Network.from_hdf5(w.path('n.hdf5'))
    return [net.get('parameters'), get_description(net)]


@op('load', 'gmods wmods save')
def load(w):
    net = bs.Network.from_hdf5(w.path('n.hdf5'))
    return [net.get('parameters'), get_description(net)]


@op('describe', 'gmods wmods data2 train')
def describe(w):
    d = get_description(w.net)
    net = create_from_description(d)
    net.initialize(1.0)
    return [d, net.get('parameters')]


@op('evaluate', 'data4 train')
def evaluate_(w):
    return evaluate(w.net, w.iter(3), w.scorers())


@op('extract', 'data1 train')
def extract_(w):
    return extract(w.net, w.iter(3), [OUT, 'h.outputs.default'])


@op('extractsave', 'data1 train')
def extractsave(w):
    f = w.path('f.hdf5')
    if os.path.exists(f):
        os.remove(f)
    with quiet():
        extract_and_save(w.net, w.iter(3), [OUT], f)
    with h5py.File(f, 'r') as h:
        return [h[OUT][:]]


for _n, _s in (('sgd', lambda: st.SgdStepper(0.2)),
               ('mom', lambda: st.MomentumStepper(0.2, 0.6)),
               ('nest', lambda: st.NesterovStepper(0.2, 0.6)),
               ('fwd', lambda: st.ForwardStepper())):
    def _step(w, s=_s, n=_n):
        s = w.keep(n, s)
        s.start(w.net)
        for _ in range(2):
            s.run()
        return results(w)
    op('step-' + _n, 'data2 train', keeps=_n == 'fwd')(_step)


def make_trainer(w, epochs, stepper):
    t = Trainer({'mom': st.MomentumStepper(0.2, 0.6),
                 'nest': st.NesterovStepper(0.2, 0.6)}[stepper],
                verbose=False)
    t.train_scorers = w.scorers()
    hooks = [
        H.MonitorScores('valid', w.scorers(), name='val'),
        H.MonitorLoss('valid', name='loss', timescale='update',
                      verbose=True),
        H.MonitorLayerParameters('h', name='par', verbose=True),
        H.ModifyStepperAttribute(FragileSchedule(0.3, 0.5), 'learning_rate',
                                 timescale='update', name='lr'),
        H.SaveBestNetwork('val.total_loss', name='best',
                          verbose=True),
        H.EarlyStopper('val.total_loss', patience=9, name='early'),
        H.StopAfterThresholdReached('val.total_loss', -9.0, name='thr'),
        H.SaveLogs(w.path('logs.hdf5'), name='logs'),
        H.StopAfterEpoch(epochs, name='stop')]
    for h in hooks:
        t.add_hook(weaken(h, ['__call__', 'start']))
    t.stepper = weaken(t.stepper, ['start', 'run'])
    return t


def history(t):
    return copy.deepcopy([t.logs, t.current_epoch_nr, t.current_update_nr])


def more(w, epochs, stepper):
    """Train, starting afresh or from what is in w.trainer."""
    if w.trainer is None:
        w.trainer = make_trainer(w, 0, stepper)
    t = w.trainer
    t.hooks['stop'].max_epochs = t.current_epoch_nr + epochs
    go(w)


def go(w):
    with quiet():
        w.trainer.train(w.net, w.iter(3), valid=w.iter(2))


for _n in ('mom', 'nest'):
    def _trainer(w, s=_n):
        more(w, 1, s)
        return history(w.trainer)
    op('trainer-' + _n, 'wmods gmods', keeps=False)(_trainer)


@op('results', 'wmods gmods trainer-mom')
def results_(w):
    with quiet():
        # in a trainer that does not train, so without hooks for that
        t = Trainer(st.SgdStepper(), verbose=False)
        t.add_hook(weaken(H.MonitorScores('valid', w.scorers(), name='val'),
                          ['__call__', 'start']))
        return copy.deepcopy(t.evaluate(w.net, valid=w.iter(3)))


@op('build')
def build(w):
    net = bs.Network.from_architecture(architecture(C15.NETS[w.name]))
    net.set_handler(OtherHandler(np.float64))
    net.initialize(FragileInit(0.5), seed=3)
    fix(w, net)
    return [net.get('parameters'), get_description(net)]


# ------------------------------- exploration -------------------------------

def prepare(name, ops, tmp):
    w = World(name, tmp)
    for o in ops:
        w.reseed()
        OPS[o]['run'](w)
    w.reseed()
    return w


def attempt(w, name, k, kind, trace):
    """Run the operation with the k-th point failing.

    Returns the number of points, and the fault if one was raised."""
    F.n, F.k, F.kind, F.raised = 0, k, kind, None
    if trace is not None:
        return trace(w, name, k)
    F.on = True
    try:
        with quiet():
            OPS[name]['run'](w)
    except BaseException as e:
        F.on = False
        if F.raised is None:
            raise
        x = e
        while x is not None and x is not F.raised:
            x = x.__cause__ or x.__context__
        check(x is F.raised, 'fault {} of {} ({}) ended in {!r}', k, name,
              kind.__name__, e)
    else:
        F.on = False
        check(F.raised is None, 'fault {} of {} ({}) was swallowed', k, name,
              kind.__name__)
    return F.n, F.raised


LIB = os.path.dirname(os.path.abspath(bs.__file__))


def by_line(w, name, k):
    """Like attempt, with an interrupt before the k-th executed line."""
    seen = [0, None]

    def enter(frame, event, arg):
        if frame.f_code.co_filename.startswith(LIB):
            return line

    def line(frame, event, arg):
        if event == 'line':
            seen[0] += 1
            if seen[0] == k:
                sys.settrace(None)
                seen[1] = Interrupt('%s:%d' % (frame.f_code.co_filename,
                                               frame.f_lineno))
                raise seen[1]
        return line
    sys.settrace(enter)
    try:
        OPS[name]['run'](w)
    except Interrupt:
        sys.settrace(None)
        return seen[0], seen[1]
    finally:
        sys.settrace(None)
    check(seen[1] is None, 'the interrupt at {} of {} was swallowed',
          seen[1], name)
    return seen[0], None


def twin(w, name, settings, before, tmp):
    """A world in the same state that was never interrupted."""
    t = prepare(w.name, OPS[name]['pre'], tmp)
    if settings != before:
        OPS[name]['run'](t)
        t.reseed()
    same_settings = t.settings() == settings
    check(same_settings, '{} left {}', name, where(settings, t.settings()))
    p = w.params()
    h = t.net.handler
    h.set_from_numpy(t.net.buffer.parameters, p)
    if w.trainer is not None:
        # the twin continues from the logs and counters
        s = 'nest' if 'nest' in name else 'mom'
        t.trainer = make_trainer(t, 0, s)
        t.trainer.logs, t.trainer.current_epoch_nr, \
            t.trainer.current_update_nr = history(w.trainer)
    return t


def follow(w, ops):
    out = []
    for o in ops:
        w.reseed()
        out.append((o, OPS[o]['run'](w), w.params()))
    return out


def explore(case, ctx):
    net, name, mode = case['net'], case['op'], case['mode']
    o = OPS[name]
    tmp = tempfile.mkdtemp(prefix='vmc27')
    trace = by_line if mode == 'line' else None
    try:
        dirs = [os.path.join(tmp, d) for d in 'abc']
        for d in dirs:
            os.mkdir(d)
        w = prepare(net, o['pre'], dirs[0])
        before = w.settings()
        n, _ = attempt(w, name, 0, Interrupt, trace)
        after = w.settings()
        check(n > 0 or name in ('wmods', 'gmods', 'describe', 'get') or trace,
              '{} uses nothing that can fail', name)
        setting = before != after
        twins = {}
        kinds = {'report': KINDS[2:], 'line': [Interrupt]}.get(mode, KINDS[:2])
        for k in range(case['part'] + 1, n + 1, case['parts']):
            for kind in kinds:
                what = 'after fault %d of %d (%s) in %s on %s' % (
                    k, n, kind.__name__, name, net)
                for first in (True, False):
                    if case['light'] and first != (kind is Interrupt) and \
                            mode == 'go':
                        continue
                    w = prepare(net, o['pre'], dirs[0])
                    p0 = w.params()
                    old = history(w.trainer) if w.trainer else None
                    fault = attempt(w, name, k, kind, trace)[1]
                    check(fault is not None, 'no fault {} of {} in {}', k, n,
                          name)
                    if trace:
                        what = 'after an interrupt at %s in %s on %s' % (
                            fault, name, net)
                    ctx.step()
                    settings = w.settings()
                    check(settings == before or setting and
                          settings == after, '{}: {}', what,
                          where(settings, before))
                    p = w.params()
                    if o['keeps'] or o['keeps'] is None and net != 'bn':
                        check(same(p, p0) or w.net.handler.dtype !=
                              np.float64 and
                              same(p, p0.astype(np.float32)),
                              '{} the parameters are {} instead of {}', what,
                              p, p0)
                    check(np.isfinite(p).all(), '{} the parameters are {}',
                          what, p)
                    if w.trainer is not None:
                        counted(w.trainer, old, what)
                        best(w, dirs[2], what)
                    if name in ('save', 'saveover'):
                        gc.collect()
                        if os.path.exists(w.path('n.hdf5')):
                            intact(w.path('n.hdf5'), [
                                p0, get_description(w.net)], False, what)
                    if mode == 'report':
                        break
                    ops = ['data4', 'train', 'back', 'data1', 'eval']
                    if first:
                        ops = [name] + ops
                    else:
                        ops = ops + o['pre'][:] + [name] + ops
                    # a world in the same state that was not interrupted
                    key = (p.tobytes(), settings == before, first,
                           w.trainer and repr(history(w.trainer)))
                    if key not in twins:
                        twins[key] = follow(
                            twin(w, name, settings, before, dirs[1]), ops)
                    a = follow(w, ops)
                    b = twins[key]
                    for x, y in zip(a, b):
                        if not same(x, y):
                            raise Violation('%s %s gives %s' % (
                                what, x[0], where(x, y)))
                    ctx.step()
            ctx.state((net, name, k))
    finally:
        F.on = False
        shutil.rmtree(tmp)
    ctx.trace()


def counted(t, old, what):
    logs, epoch, update = history(t)
    done = len(logs.get('rolling_training', {}).get('total_loss', ()))
    check(epoch in (done, done + 1), '{} {} epochs are logged but {} counted',
          what, done, epoch)
    if old is not None:
        check(epoch >= old[1] and update >= old[2], '{} the counters went '
              'back', what)


VAL = {}


def val(w, params, tmp):
    """The validation loss of w's network with these parameters."""
    key = w.name, params.tobytes()
    if key not in VAL:
        if len(VAL) > 999:
            VAL.clear()
        e = World(w.name, tmp)
        e.net.handler.set_from_numpy(e.net.buffer.parameters, params)
        VAL[key] = evaluate(e.net, e.iter(2))['total_loss']
    return VAL[key]


def best(w, tmp, what):
    """Doing the interrupted step again still finds the best network."""
    t = w.trainer
    logs = t.logs.get('val', {}).get('total_loss', ())
    if len(logs) == 0 or logs[-1] != val(w, w.params(), tmp):
        return
    hook = t.hooks['best']
    with quiet():
        hook(epoch_nr=t.current_epoch_nr, update_nr=t.current_update_nr,
             net=w.net, stepper=t.stepper, logs=t.logs)
    p = hook.load_best_network()
    check(p is not None and val(w, p, tmp) == max(logs), '{} the best network '
          'has the score {}, of {}', what,
          p if p is None else val(w, p, tmp), logs)


# ---------------------------- rejected assignments -------------------------

def rejects(case, ctx):
    """What is rejected has not been done in part."""
    tmp = tempfile.mkdtemp(prefix='vmc27')
    g = ini.Gaussian
    bad = ini.SparseInputs(g(0.5), 40)
    try:
        calls = [
            ('nothing', lambda n: n.initialize(h=g())),
            ('two', lambda n: n.initialize(default=g(), **{
                '[h]': g(), '?': g()})),
            ('unknown layer', lambda n: n.initialize(g(), nope=g())),
            ('unknown parameter', lambda n: n.initialize(
                g(), h={'nope': g()})),
            ('impossible', lambda n: n.initialize(g(), out=g())),
            ('wrong shape', lambda n: n.initialize(g(), **{
                last(n): [1., 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]})),
            ('no fallback', lambda n: n.initialize(g(), **{last(n): bad})),
            ('two fallbacks', lambda n: n.initialize(g(), fallback=g(), **{
                last(n): {'default': g(), 'fallback': g()}, '*': {
                    'fallback': g()}})),
            ('weight', lambda n: n.set_weight_modifiers(nope=vm.ClipValues())
             ),
            ('gradient', lambda n: n.set_gradient_modifiers(
                h={'nope': vm.ClipValues()})),
            ('fallback', lambda n: n.set_gradient_modifiers(
                vm.ClipValues(), fallback=vm.ClipValues())),
        ]
        for pre in ([], ['wmods', 'gmods'], ['init2', 'data2', 'train'],
                    ['data4', 'train', 'back', 'wmods']):
            for seed in range(2):
                for name, call in calls:
                    w = prepare(case['net'], pre, tmp)
                    before = [w.params(), w.settings(),
                              get_description(w.net)]
                    try:
                        call(w.net)
                    except Exception:
                        pass
                    else:
                        continue
                    now = [w.params(), w.settings(), get_description(w.net)]
                    what = 'assignment "%s" was rejected by %s but' % (
                        name, case['net'])
                    check(same(before, now), '{} changed the network: {}',
                          what, where(before, now))
                    ctx.step()
                    ctx.state((name, tuple(pre)))
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


def last(net):
    """The last layer with parameters, in alphabetical order."""
    return sorted(l for l in net.layers if 'parameters' in net.buffer[l] and
                  len(net.buffer[l].parameters.keys()))[-1]


# ---------------------------------- files ----------------------------------

def files(case, ctx):
    tmp = tempfile.mkdtemp(prefix='vmc27')
    try:
        w = prepare(case['net'], ['wmods', 'gmods', 'init2', 'data2'], tmp)
        path = w.path('a.hdf5')
        w.net.save_as_hdf5(path)
        want = [w.params(), get_description(w.net)]
        with open(path, 'rb') as f:
            raw = f.read()
        for n in range(case['part'], len(raw) + 1, case['parts']):
            with open(w.path('t.hdf5'), 'wb') as f:
                f.write(raw[:n])
            intact(w.path('t.hdf5'), want, n == len(raw),
                   '%d of %d bytes of the file' % (n, len(raw)))
            ctx.step()
            ctx.state(n)
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


def intact(path, want, must, what):
    """The file is refused or complete."""
    try:
        net = bs.Network.from_hdf5(path)
    except Exception as e:
        check(not must, '{} cannot be loaded: {!r}', what, e)
        return
    check(same(want, [net.get('parameters'), get_description(net)]),
          '{} loads as another network', what)


# ----------------------------------- run -----------------------------------

def quick_set():
    for name in OPS:
        for net in PARTS:
            slow = name in ('results', 'applyg', 'both', 'back') or \
                name.startswith(('step', 'extract', 'eval'))
            if 'trainer' in name:
                if (name, net) in (('trainer-mom', 'ff'),
                                   ('trainer-nest', 'conv')):
                    yield net, 'go', name
                if (name, net) == ('trainer-mom', 'ff'):
                    yield net, 'report', name
            elif net != 'rnn' or not slow or name in ('both', 'eval'):
                yield net, 'go', name
                if net == 'ff' or net != 'rnn' and not slow:
                    yield net, 'report', name


QUICK = set(quick_set())


def cases(tier):
    th = tier == 'thorough'
    for mode in ('go', 'report') + (('line',) if th else ()):
        for name in OPS:
            for i, net in enumerate(PARTS):
                if OPS[name]['nets'] and net not in OPS[name]['nets']:
                    continue
                parts = 2
                if 'trainer' in name:
                    parts = 24
                if not th and (net, mode, name) not in QUICK:
                    continue
                if mode == 'line':
                    parts *= 16
                for part in range(parts):
                    yield dict(k='explore', net=net, op=name, mode=mode,
                               part=part, parts=parts, light=not th)
    for net in PARTS:
        yield dict(k='rejects', net=net)
        for part in range(4):
            yield dict(k='files', net=net, part=part, parts=4)


def run(case, ctx):
    globals()[case['k']](case, ctx)
