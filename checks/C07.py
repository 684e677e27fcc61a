"""Describing and re-creating an object preserves its behaviour."""
import copy
import itertools
import json
import os
import shutil
import tempfile

import numpy as np

import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import initializers as ini
from brainstorm import scorers as sc
from brainstorm import value_modifiers as vm
from brainstorm.data_iterators import Minibatches
from brainstorm.describable import (Describable, create_from_description,
                                    get_description)
from brainstorm.handlers import DebugHandler, NumpyHandler
from brainstorm.training import schedules as sch
from brainstorm.training import steppers as st
from brainstorm.training import Trainer
from brainstorm.utils import get_inheritors
from vmc.core import Violation, check
from vmc.nets import gen

BOUNDS = {
    'quick': '36 library classes with the product of their option values '
             '(about 700 objects) x all words of <=3 of 4 operations '
             '(re-create through JSON, use, change the description, copy); '
             'containers nesting them; trainers with all ordered pairs of 17 '
             'hooks x scorers, before / after training; all specifications '
             'of an attribute in a chain of 3 classes and a diamond (625) x '
             '12 values; a network for each of 29 layers x options',
    'thorough': 'as quick with words of <=4 operations and all ordered '
                'triples of hooks',
}

INF = float('inf')


class Omit(object):
    pass


def grid(**opts):
    """All combinations, each option also left out."""
    keys = sorted(opts)
    for combo in itertools.product(*[[Omit] + list(opts[k]) for k in keys]):
        yield {k: v for k, v in zip(keys, combo) if v is not Omit}


def need(required, **opts):
    """As grid, but these options have to be there."""
    return [kw for kw in grid(**opts) if required <= set(kw)]


def make(x):
    """Build nested objects afresh."""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict) and \
            isinstance(x[0], type):
        return x[0](**make(x[1]))
    if isinstance(x, dict):
        return {k: make(v) for k, v in x.items()}
    if isinstance(x, list):
        return [make(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


SUB = [(ini.Gaussian, dict(std=0.5)), (ini.Uniform, dict(low=-1., high=2.)),
       (ini.Identity, dict(scale=2.0, std=0.0, enforce_square=False))]
M34 = np.arange(12.0).reshape(3, 4) / 7
SHAPES = [(4, 4), (3, 5), (8, 3), (4,), (4, 2, 3)]


def out(f, *args):
    """The observable result of a call: a value or the kind of error."""
    try:
        r = f(*args)
    except Exception as e:
        return ['error', type(e).__name__]
    return r


def p_init(i):
    i.rnd.set_seed(5)
    return [out(i, s) for s in SHAPES] + [out(i, s) for s in SHAPES[:2]]


def p_value(m):
    res = []
    for h in (NumpyHandler(np.float64), NumpyHandler(np.float32)):
        a = h.create_from_numpy(np.asarray(M34 - 0.7, h.dtype))
        m.rnd.set_seed(3)
        for _ in range(2):
            m(h, a)
            res.append(a.copy())
            a *= -1.5
            a += 0.1
        break
    return res


def p_grad(m):
    h = NumpyHandler(np.float64)
    w, g = M34 - 0.7, M34 * 2
    for _ in range(2):
        m(h, w, g)
    return [w, g]


def p_handler(h):
    res = []
    x = h.create_from_numpy(np.linspace(-2, 2, 12).reshape(3, 4).astype(
        np.float32))
    if isinstance(h, DebugHandler):
        res.append(type(x).__name__)
        bad = h.create_from_numpy(np.array([[np.nan]]))
        res.append(out(h.tanh, bad, h.zeros((1, 1))))
        res.append(out(h.add_tt, x, h.zeros((2, 2)), h.zeros((3, 4))))
    for name in ('sigmoid', 'rel', 'tanh', 'linear', 'el'):
        y, dx = h.zeros((3, 4)), h.zeros((3, 4))
        dy = h.ones((3, 4))
        h.act_func[name](x, y)
        res.append(h.get_numpy_copy(y))
        h.act_func_deriv[name](x, y, dy, dx)
        res.append(h.get_numpy_copy(dx))
        h.inplace_act_func_deriv[name](y, dy)
        res.append(h.get_numpy_copy(dy))
    core = h.handler if isinstance(h, DebugHandler) else h
    core.rnd.set_seed(4)
    m = h.zeros((3, 5))
    h.generate_probability_mask(m, 0.5)
    res.append(h.get_numpy_copy(m))
    z = h.get_numpy_copy(h.zeros((2,)))
    res += [str(z.dtype), str(h.get_numpy_copy(h.allocate((2, 1))).dtype),
            h.array_type.__name__]
    return res


def small_net():
    i, o = bs.tools.get_in_out_layers('regression', 3, 2)
    net = bs.Network.from_layer(i >> bs.layers.FullyConnected(
        3, 'tanh', name='hid') >> o)
    net.set_handler(NumpyHandler(np.float64))
    net.initialize(ini.Gaussian(0.5), seed=4)
    net.output_name = 'Output.outputs.predictions'
    return net


def data(n=6, key='d'):
    return dict(default=gen((key, 'x'), (1, n, 3)),
                targets=gen((key, 't'), (1, n, 2)))


def p_stepper(s):
    net = small_net()
    net.provide_external_data(data())
    s.start(net)
    res = []
    for _ in range(3):
        s.run()
        net.apply_weight_modifiers()
        res.append(net.get('parameters'))
    return res


def p_schedule(s):
    return [out(s, e, u, ts, k, None, None, {})
            for e in range(6) for u in (0, 3, 7) for ts in ('epoch', 'update')
            for k in (1, 2)]


def p_scorer(s):
    p = gen('p', (6, 4), 0, 1)
    res = [s.__name__, s.out_name, s.targets_name, s.mask_name]
    for t in (np.arange(6).reshape(6, 1) % 4, (p > 0.4).astype(float)):
        for m in (None, np.array([[1.], [0], [1], [1], [0], [1]])):
            res.append(out(s, t.copy(), p.copy(),
                           None if m is None else m.copy()))
    return res + [s.aggregate([(3, 1.5), (2, 2)])]


def p_hook(h):
    """Inside a fresh trainer, as trainers restore hooks and their names."""
    return [sorted((k, repr(list(v) if isinstance(v, tuple) else v))
                   for k, v in vars(h).items()
                   if k not in ('__name__', 'run_verbosity', 'iter', 'bar',
                                'length', 'quit', 'schedule', 'scorers',
                                'parameters', 'best_t', 'best_so_far'))]


# class -> (argument lists, probe)
NAMES = dict(name=['nm'])
TIMES = dict(timescale=['update', 'epoch'], interval=[1, 3])
VERB = dict(verbose=[True, False, None])


def classes():
    c = {}
    scale = ['rel', 'tanh', 'sigmoid', 'linear', 2.5, 3]
    c['DenseSqrtFanIn'] = ini.DenseSqrtFanIn, grid(scale=scale), p_init
    c['DenseSqrtFanInOut'] = ini.DenseSqrtFanInOut, grid(scale=scale), p_init
    c['EchoState'] = ini.EchoState, grid(spectral_radius=[1.0, 1, 0.5, 3]), \
        p_init
    c['Gaussian'] = ini.Gaussian, grid(std=[0.1, 0, 2.5], mean=[
        0.0, 0, 1.5, -2]), p_init
    c['Identity'] = ini.Identity, grid(scale=[1.0, 2], std=[0.01, 0.0, 1],
                                       enforce_square=[True, False]), p_init
    gates = [0.0, 2, (ini.Gaussian, {}), (ini.Orthogonal, dict(scale=2.0))]
    c['LstmOptInit'] = ini.LstmOptInit, grid(
        input_block=gates[1:], input_gate=gates[2:], forget_gate=gates,
        output_gate=[1.0]), p_init
    c['Orthogonal'] = ini.Orthogonal, grid(scale=[1.0, 2, -1.0]), p_init
    c['RandomWalk'] = ini.RandomWalk, grid(
        act_func=['linear', 'rel', 'tanh'], scale=[None, 1.5, 2, 0.0]), p_init
    for name in ('SparseInputs', 'SparseOutputs'):
        c[name] = getattr(ini, name), need(
            {'sub_initializer'}, sub_initializer=SUB,
            connections=[15, 1, 2, 3]), p_init
    c['Uniform'] = ini.Uniform, [{}, dict(low=0.1), dict(low=3), dict(
        low=2.0, high=None)] + [dict(low=a, high=b) for a, b in (
            (0.1, 2), (-2, 0.0), (0.0, 5.0), (-1, 1), (-0.1, 0.1), (3, 4))], \
        p_init
    lim = [1.0, 0.3, 5]
    c['ConstrainL2Norm'] = vm.ConstrainL2Norm, need({'limit'}, limit=lim), \
        p_value
    c['ClipValues'] = vm.ClipValues, grid(low=[-1., 0, -INF, -0.2],
                                          high=[1., 0.3, INF, 2]), p_value
    c['MaskValues'] = vm.MaskValues, need(
        {'mask'}, mask=[(M34 > 0.5), (M34 > 0.5).astype(float),
                        np.ones((3, 4), np.float32) / 2,
                        np.arange(12).reshape(3, 4)]), p_value
    c['FreezeValues'] = vm.FreezeValues, grid(
        weights=[None, M34, M34.astype(np.float32)]), p_value
    for name in ('L1Decay', 'L2Decay'):
        c[name] = getattr(vm, name), need({'factor'}, factor=[0.1, 0, 2.0]), \
            p_grad
    c['NumpyHandler'] = NumpyHandler, need(
        {'dtype'}, dtype=[np.float32, np.float64, 'float32'],
        seed=[None, 7]), p_handler
    c['DebugHandler'] = DebugHandler, [
        dict(handler=(NumpyHandler, dict(dtype=t)))
        for t in (np.float32, np.float64)], p_handler
    c['ForwardStepper'] = st.ForwardStepper, grid(
        use_training_pass=[True, False]), p_stepper
    rate = [0.1, 0.5, 0, 1]
    c['SgdStepper'] = st.SgdStepper, grid(learning_rate=rate), p_stepper
    for name in ('MomentumStepper', 'NesterovStepper'):
        c[name] = getattr(st, name), grid(
            learning_rate=rate[:2], momentum=[0.0, 0.9, 1],
            scale_learning_rate=[True, False]), p_stepper
    c['Linear'] = sch.Linear, [
        dict(initial_value=a, final_value=b, num_changes=n)
        for a in (0.1, 1) for b in (0.5, 0) for n in (1, 4)], p_schedule
    c['Exponential'] = sch.Exponential, need(
        {'initial_value', 'factor'}, initial_value=[0.1, 2],
        factor=[0.5, 1.5], minimum=[-INF, 0.05], maximum=[INF, 2, 0.3]), \
        p_schedule
    c['MultiStep'] = sch.MultiStep, [
        dict(initial_value=a, steps=s, values=v) for a in (0.1, 1)
        for s, v in (([], []), ([2], [3.0]), ([1, 4, 5], [3, 2.0, 1]))], \
        p_schedule
    c['DecreaseAfterEpoch'] = sch.DecreaseAfterEpoch, [
        dict(initial_value=a, T=t) for a in (0.1, 1) for t in (1, 3)], \
        p_schedule
    names = dict(out_name=['a.b'], targets_name=['lab'], mask_name=['m'],
                 name=['nm', None])
    c['Accuracy'] = sc.Accuracy, grid(**names), p_scorer
    c['Hamming'] = sc.Hamming, grid(threshold=[0.5, 0.2, 1], **names), \
        p_scorer
    c['MeanSquaredError'] = sc.MeanSquaredError, grid(**names), p_scorer
    common = dict(TIMES, **VERB)
    log = dict(log_name=['a.b', 'x'])
    crit = dict(criterion=['min', 'max'])
    c['SaveBestNetwork'] = H.SaveBestNetwork, need(
        {'log_name'}, filename=[None, '/nowhere/f'], **dict(
            log, **dict(crit, **common))), p_hook
    for name in ('SaveLogs', 'SaveNetwork'):
        c[name] = getattr(H, name), need(
            {'filename'}, filename=['/nowhere/f'], **dict(NAMES, **TIMES)), \
            p_hook
    for name in ('MonitorLayerDeltas', 'MonitorLayerGradients',
                 'MonitorLayerInOuts', 'MonitorLayerParameters'):
        c[name] = getattr(H, name), need({'layer_name'}, layer_name=['hid'],
                                         **dict(NAMES, **common)), p_hook
    c['MonitorLoss'] = H.MonitorLoss, need({'iter_name'}, iter_name=['v'],
                                           **common), p_hook
    c['MonitorScores'] = H.MonitorScores, need(
        {'iter_name', 'scorers'}, iter_name=['v'], scorers=[
            [], [(sc.Accuracy, {}), (sc.Hamming, dict(threshold=0.2,
                                                      name='h'))]],
        **common), p_hook
    c['EarlyStopper'] = H.EarlyStopper, need(
        {'log_name'}, patience=[1, 5], **dict(log, **dict(crit, **common))), \
        p_hook
    c['StopAfterEpoch'] = H.StopAfterEpoch, need(
        {'max_epochs'}, max_epochs=[0, 1, 7], **common), p_hook
    c['StopAfterThresholdReached'] = H.StopAfterThresholdReached, need(
        {'log_name', 'threshold'}, threshold=[0.5, INF, -1],
        **dict(log, **dict(crit, **common))), p_hook
    c['StopOnNan'] = H.StopOnNan, grid(
        logs_to_check=['a.b', ['a', 'b.c'], ('a',)],
        check_parameters=[True, False], check_training_loss=[True, False],
        **TIMES), p_hook
    c['StopOnSigQuit'] = H.StopOnSigQuit, grid(**common), p_hook
    c['ProgressBar'] = H.ProgressBar, [{}], p_hook
    c['ModifyStepperAttribute'] = H.ModifyStepperAttribute, need(
        {'schedule'}, schedule=[
            (sch.Linear, dict(initial_value=.1, final_value=.5,
                              num_changes=3)),
            (sch.MultiStep, dict(initial_value=.1, steps=[2],
                                 values=[.2]))],
        attr_name=['learning_rate', 'momentum'], **common), p_hook
    return {k: (v[0], list(v[1]), v[2]) for k, v in c.items()}


CLASSES = classes()


def cases(tier):
    th = tier == 'thorough'
    yield dict(k='names')
    for name in sorted(CLASSES):
        n = len(CLASSES[name][1])
        for start in range(0, n, 12):
            yield dict(k='object', cls=name, lo=start, hi=min(n, start + 12),
                       depth=4 if th else 3)
    yield dict(k='container')
    for mixin in (False, True):
        for a in range(len(SPECS)):
            yield dict(k='toy', a=a, mixin=mixin)
    hooks = sorted(HOOKS)
    for a in hooks:
        yield dict(k='trainer', first=a, n=3 if th else 2)
    for i in range(len(layer_specs())):
        yield dict(k='layer', i=i)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and \
            a.shape == b.shape and a.dtype == b.dtype and \
            np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def through_json(d):
    return json.loads(json.dumps(d))


def scramble(d):
    """Destroy a description in place."""
    if isinstance(d, dict):
        for k in list(d):
            scramble(d[k])
            d[k] = 'gone'
        d['more'] = 1
    elif isinstance(d, list):
        for i in range(len(d)):
            scramble(d[i])
            d[i] = 'gone'


OPS = ('recreate', 'use', 'scramble', 'copy')


def obj(case, ctx):
    cls, argss, probe = CLASSES[case['cls']]
    for i in range(case['lo'], case['hi']):
        def fresh():
            bs.global_rnd.set_seed(11)
            return make((cls, argss[i]))
        what = '%s(%s)' % (case['cls'], argss[i])
        want_d = through_json(get_description(fresh()))
        check(want_d.get('@type') == cls.__name__, '{}: type in the '
              'description is {}', what, want_d.get('@type'))
        want = probe(fresh())
        depth = case['depth'] if not issubclass(cls, H.Hook) else 2
        for n in range(1, depth + 1):
            for word in itertools.product(OPS, repeat=n):
                if 'copy' in word and issubclass(cls, st.TrainingStepper):
                    continue    # started steppers hold a network
                o = fresh()
                for op in word:
                    if op == 'recreate':
                        before = get_description(o)
                        d = through_json(before)
                        o = create_from_description(d)
                        check(through_json(before) == d, '{}: creating from '
                              'a description changed it', what)
                        check(type(o) is cls, '{}: re-created as {}', what,
                              type(o))
                        scramble(d)
                    elif op == 'use':
                        probe(o)
                    elif op == 'scramble':
                        scramble(get_description(o))
                    else:
                        o = copy.deepcopy(o)
                    ctx.step()
                got_d = through_json(get_description(o))
                check(got_d == want_d, '{} after {}: described as {} instead '
                      'of {}', what, word, got_d, want_d)
                if word[-1] != 'use' or 'recreate' in word[1:]:
                    fin = create_from_description(got_d)
                    got = probe(fin)
                    check(same(got, want), '{} after {} and re-creating: {} '
                          'instead of {}', what, word, got, want)
                    if 'use' not in word:
                        got = probe(o)
                        check(same(got, want), '{} after {}: {} instead of '
                              '{}', what, word, got, want)
        options(fresh(), create_from_description(want_d), argss[i], what)
        ctx.state(what)
    ctx.trace()


def options(a, b, args, what):
    """Public attributes carrying the arguments keep value and kind."""
    for k in args:
        if not hasattr(a, k) or k == 'dtype':
            continue
        x, y = getattr(a, k), getattr(b, k)
        if isinstance(x, np.ndarray):
            check(isinstance(y, np.ndarray) and np.array_equal(x, y),
                  '{}: option {} became {!r}', what, k, y)
        elif isinstance(x, Describable):
            check(type(x) is type(y), '{}: option {} became {!r}', what, k, y)
        elif isinstance(x, (list, tuple)):
            check(len(x) == len(y) and all(
                type(p) is type(q) for p, q in zip(x, y)),
                '{}: option {} became {!r}', what, k, y)
        elif k != 'name':
            check(x == y, '{}: option {} = {!r} '
                  'became {!r}', what, k, x, y)


def names(case, ctx):
    """Class names identify the library's describable classes."""
    seen = {}
    for c in get_inheritors(Describable):
        if not c.__module__.startswith('brainstorm.') or \
                '.tests.' in c.__module__:
            continue
        check(c.__name__ not in seen, '{} and {} have the same name', c,
              seen.get(c.__name__))
        seen[c.__name__] = c
        ctx.step()
    for n in CLASSES:
        check(CLASSES[n][0] is seen.get(n), '{} is not describable', n)
    for bad in ({'@type': 'NoSuchClass'}, {'a': {'@type': 'nope'}},
                [{'@type': 'nope'}], object(), {'a': object()}, [set()]):
        try:
            create_from_description(bad)
        except TypeError:
            ctx.step()
            continue
        raise Violation('created an object from %r' % (bad,))
    for bad in (object(), {'a': object()}, [1, set()], lambda: 1, 1j):
        try:
            get_description(bad)
        except TypeError:
            ctx.step()
            continue
        raise Violation('described %r' % (bad,))
    ctx.trace()


def container(case, ctx):
    basics = [0, 1, -3, 2.5, True, False, None, '', 'text', u'\xe4', [], {},
              INF, [1, [2, []]], {'a': {'b': [None]}}]
    for x in basics:
        for wrap in (lambda v: v, lambda v: [v], lambda v: {'k': v},
                     lambda v: [{'k': [v]}], lambda v: (v, v)):
            v = wrap(x)
            d = get_description(v)
            check(same(d, v) and type(through_json(d)) is not tuple,
                  '{!r} described as {!r}', v, d)
            r = create_from_description(through_json(d))
            check(same(r, v) and (not isinstance(x, bool) or
                                  'true' in json.dumps(r) or not x),
                  '{!r} re-created as {!r}', v, r)
            ctx.step()
    a = np.arange(6).reshape(2, 3)
    check(get_description(a) == a.tolist() and
          get_description({'x': [a]}) == {'x': [a.tolist()]}, 'arrays')
    for name in sorted(CLASSES):
        cls, argss, probe = CLASSES[name]
        for args in (argss[0], argss[-1]):
            def fresh():
                bs.global_rnd.set_seed(11)
                return make((cls, args))
            want = probe(fresh())
            for wrap, unwrap in (
                    (lambda o: [o], lambda r: r[0]),
                    (lambda o: (1, o), lambda r: r[1]),
                    (lambda o: {'k': o}, lambda r: r['k']),
                    (lambda o: {'k': [{'l': o}, 2]},
                     lambda r: r['k'][0]['l'])):
                d = through_json(get_description(wrap(fresh())))
                o = unwrap(create_from_description(d))
                check(type(o) is cls and same(probe(o), want), '{}({}) in a '
                      'container: re-created as {!r}', name, args, o)
                ctx.step()
            x = fresh()
            two = create_from_description(through_json(get_description(
                [x, x])))
            check(two[0] is not two[1], 'two objects became one')
        ctx.state(name)
    ctx.trace()


# ------------------------------------------------------------- inheritance --

SPECS = ['none', 'set', 'dict7', 'dictlist', 'default3', 'defaultlist',
         'defaultarray']
VALUES = [3, 7, None, 'x', [], [1], [1, [2]], {'k': [1]}, 2.5, 'array3',
          'arrayf', 'nested']
COUNT = [0]


class ToyInner(Describable):
    def __init__(self, z):
        self.z = z

    def __eq__(self, other):
        return isinstance(other, ToyInner) and self.z == other.z

    def __ne__(self, other):
        return not self == other


def value(v):
    if isinstance(v, str) and v == 'array3':
        return np.arange(3)
    if isinstance(v, str) and v == 'arrayf':
        return np.array([[0.5, 2.0]])
    if isinstance(v, str) and v == 'nested':
        return ToyInner([4, {'b': 'c'}])
    return copy.deepcopy(v)


def attrs(spec):
    d = {}
    if spec == 'set':
        d['__undescribed__'] = {'x'}
    elif spec == 'dict7':
        d['__undescribed__'] = {'x': 7}
    elif spec == 'dictlist':
        d['__undescribed__'] = {'x': [1]}
    elif spec == 'default3':
        d['__default_values__'] = {'x': 3}
    elif spec == 'defaultlist':
        d['__default_values__'] = {'x': [1]}
    elif spec == 'defaultarray':
        d['__default_values__'] = {'x': np.arange(3)}
    return d


def toy(case, ctx):
    """The attribute x declared along a chain (or diamond) of classes."""
    for b, c in itertools.product(range(len(SPECS)), repeat=2):
        specs = [SPECS[case['a']], SPECS[b], SPECS[c]]
        # classes stay registered forever, so their names must be unique
        COUNT[0] += 1
        tag = '%d' % COUNT[0]
        A = type('ToyA' + tag, (Describable,), attrs(specs[0]))
        if case['mixin']:
            B = type('ToyB' + tag, (Describable,), attrs(specs[1]))
            C = type('ToyC' + tag, (B, A), attrs(specs[2]))
        else:
            B = type('ToyB' + tag, (A,), attrs(specs[1]))
            C = type('ToyC' + tag, (B,), attrs(specs[2]))
        und = [s for s in specs if s in ('set', 'dict7', 'dictlist')]
        dft = [s for s in specs if s.startswith('default')]
        for v in VALUES:
            o = C()
            o.x, o.y = value(v), [value(v)]
            d = through_json(get_description(o))
            again = through_json(get_description(o))
            check(d == again and same(plain(o.x), plain(value(v))),
                  'describing changed the object')
            what = 'x = %r declared %s%s' % (v, specs,
                                             ' (mixin)' * case['mixin'])
            check(d.get('@type') == C.__name__ and 'y' in d,
                  '{}: described as {}', what, d)
            default = value_of(dft[-1]) if dft else None
            if und:
                check('x' not in d, '{}: undescribed, but described as {}',
                      what, d)
            elif dft and same(plain(default), plain(value(v))):
                check('x' not in d, '{}: the default, but described as {}',
                      what, d)
            else:
                check('x' in d, '{}: missing in {}', what, d)
            r = create_from_description(d)
            check(type(r) is C, '{}: re-created as {}', what, type(r))
            if not und:
                check(same(plain(r.x), plain(value(v))) or
                      same(r.x, get_description(value(v))),
                      '{}: re-created with {!r}', what, r.x)
            elif not dft:
                if und[-1] != 'set':
                    w = 7 if und[-1] == 'dict7' else [1]
                    check(same(r.x, w), '{}: re-created with {!r}', what, r.x)
            # created objects do not share mutable initial values
            if isinstance(getattr(r, 'x', None), list):
                r.x.append('changed')
                r2 = create_from_description(d)
                check('changed' not in r2.x, '{}: shared', what)
            d2 = through_json(get_description(create_from_description(d)))
            check(d2 == d, '{}: described as {} and then as {}', what, d, d2)
            ctx.step()
        ctx.state(tuple(specs), case['mixin'])
    ctx.trace()


def value_of(spec):
    return {'default3': 3, 'defaultlist': [1],
            'defaultarray': np.arange(3)}[spec]


def plain(x):
    return ('inner', x.z) if isinstance(x, ToyInner) else x


# ---------------------------------------------------------------- trainers --

LIN = (sch.Linear, dict(initial_value=.1, final_value=.02, num_changes=3))
HOOKS = {
    'loss': (H.MonitorLoss, dict(iter_name='v')),
    'loss2': (H.MonitorLoss, dict(iter_name='v', name='val',
                                  timescale='update', interval=2)),
    'scores': (H.MonitorScores, dict(iter_name='v', name='sc', scorers=[
        (sc.MeanSquaredError, dict(name='mse')),
        (sc.MeanSquaredError, {})])),
    'deltas': (H.MonitorLayerDeltas, dict(layer_name='hid')),
    'grads': (H.MonitorLayerGradients, dict(layer_name='hid', interval=2)),
    'inouts': (H.MonitorLayerInOuts, dict(layer_name='hid',
                                          timescale='update')),
    'params': (H.MonitorLayerParameters, dict(layer_name='hid', name='Z')),
    'best': (H.SaveBestNetwork, dict(log_name='rolling_training.total_loss',
                                     criterion='min')),
    'bestmax': (H.SaveBestNetwork, dict(
        log_name='rolling_training.total_loss', criterion='max',
        name='worst')),
    'early': (H.EarlyStopper, dict(log_name='rolling_training.total_loss',
                                   patience=2, criterion='max')),
    'stop2': (H.StopAfterEpoch, dict(max_epochs=2, name='A')),
    'thresh': (H.StopAfterThresholdReached, dict(
        log_name='rolling_training.total_loss', threshold=1.0)),
    'nan': (H.StopOnNan, dict(logs_to_check='rolling_training.total_loss')),
    'quit': (H.StopOnSigQuit, {}),
    'bar': (H.ProgressBar, {}),
    'modify': (H.ModifyStepperAttribute, dict(schedule=LIN,
                                              timescale='update')),
    'save': (H.SaveNetwork, dict(filename='FILE')),
    'logs': (H.SaveLogs, dict(filename='LOGS')),
}
STEPPERS = [(st.SgdStepper, dict(learning_rate=0.2)),
            (st.NesterovStepper, dict(learning_rate=0.1, momentum=0.9))]


def build(names, stepper, scorers, tmp):
    t = Trainer(make(STEPPERS[stepper]), verbose=False)
    t.train_scorers = make(scorers)
    for n in names:
        cls, kw = HOOKS[n]
        kw = dict(kw)
        if 'filename' in kw:
            kw['filename'] = os.path.join(tmp, kw['filename'])
        t.add_hook(make((cls, kw)))
    t.add_hook(H.StopAfterEpoch(4, name='last'))
    return t


def train(t):
    import contextlib
    import io
    net = small_net()
    d = data(6)
    with contextlib.redirect_stdout(io.StringIO()):
        t.train(net, Minibatches(2, shuffle=False, **d),
                v=Minibatches(3, shuffle=False, **data(5, 'v')))
    return [net.get('parameters'), t.logs, json.dumps(list(t.logs)),
            t.current_epoch_nr, t.current_update_nr,
            [list(t.logs[k]) for k in t.logs if isinstance(t.logs[k], dict)],
            [getattr(h, 'parameters', None) for h in t.hooks.values()]]


def static(d):
    """Without what ModifyStepperAttribute changed."""
    d = copy.deepcopy(d)
    if any(h['@type'] == 'ModifyStepperAttribute'
           for h in d['hooks'].values()):
        d['stepper'].pop('learning_rate')
    return d


def trainer(case, ctx):
    import signal
    tmp = tempfile.mkdtemp()
    old = signal.getsignal(signal.SIGQUIT)
    try:
        others = [h for h in sorted(HOOKS) if h != case['first']]
        for n in range(case['n']):
            for rest in itertools.permutations(others, n):
                for stepper in (0, 1):
                    one_trainer((case['first'],) + rest, stepper,
                                [(sc.MeanSquaredError, dict(name='m'))]
                                if stepper else [], tmp, ctx)
    finally:
        signal.signal(signal.SIGQUIT, old)
        shutil.rmtree(tmp)
    ctx.trace()


def one_trainer(names, stepper, scorers, tmp, ctx):
    what = 'trainer with %s' % (names,)
    def fresh():
        return build(names, stepper, scorers, tmp)
    t = fresh()
    d = through_json(get_description(t))
    want = train(fresh())
    order = list(t.hooks)
    t2 = create_from_description(json.loads(json.dumps(d, sort_keys=True)))
    check(list(t2.hooks) == order and
          [h.__name__ for h in t2.hooks.values()] == order,
          '{}: hooks {} instead of {}', what, list(t2.hooks), order)
    check(through_json(get_description(t2)) == d, '{}: described as {} and '
          'then as {}', what, d, get_description(t2))
    got = train(t2)
    check(same(got, want), '{}: the re-created trainer trains differently: '
          '{} instead of {}', what, got, want)
    d3 = through_json(get_description(t2))
    check(static(d3) == static(d), '{}: after training described as {} '
          'instead of {}', what, d3, d)
    ctx.step(3)
    t3 = create_from_description(d3)
    check((t3.current_epoch_nr, t3.current_update_nr) == (0, 0) and
          not t3.logs and not t3.results, '{}: starts at epoch {} with logs '
          '{}', what, t3.current_epoch_nr, t3.logs)
    if 'modify' not in names:
        got = train(t3)
        check(same(got, want), '{}: re-created after training it trains '
              'differently: {} instead of {}', what, got, want)
    t4 = create_from_description(d)
    t4.add_hook(H.StopAfterEpoch(4, name='0'))
    t5 = create_from_description(json.loads(json.dumps(
        get_description(t4), sort_keys=True)))
    check(list(t5.hooks) == order + ['0'], '{}: a hook added later is called '
          'in order {}', what, list(t5.hooks))
    try:
        t4.add_hook(make(HOOKS['quit']) if 'quit' in names else
                    H.StopAfterEpoch(1, name=order[0]))
    except ValueError:
        pass
    else:
        raise Violation('%s: a second hook of the same name was accepted'
                        % what)
    ctx.state(names, stepper)


# ------------------------------------------------------------------ layers --

def layer_specs():
    L = bs.layers
    o = []

    def seq(*mk, **kw):
        o.append((mk, kw.get('shape', (4,))))
    for act in ('linear', 'rel', 'tanh', 'sigmoid', 'el'):
        seq(lambda a=act: L.FullyConnected(3, a))
        seq(lambda a=act: L.Recurrent(3, a))
        seq(lambda a=act: L.Clockwork(3, activation=a))
    seq(lambda: L.FullyConnected((2, 3), 'tanh'))
    seq(lambda: L.Lstm(3))
    seq(lambda: L.Lstm(3, 'sigmoid'))
    seq(lambda: L.ClockworkLstm(3, 'rel'))
    seq(lambda: L.BatchNorm())
    seq(lambda: L.BatchNorm(decay=0.5, epsilon=0.01))
    seq(lambda: L.Dropout(0.3))
    seq(lambda: L.Elementwise('el'))
    seq(lambda: L.NoOp())
    seq(lambda: L.DeltasScaling(0.5))
    seq(lambda: L.Convolution2D(2, (2, 3), stride=(2, 1), padding=1,
                                activation='tanh'), shape=(4, 5, 2))
    seq(lambda: L.Pooling2D((2, 3), type='avg', stride=(1, 2), padding=1),
        shape=(4, 5, 2))
    seq(lambda: L.Pooling2D((2, 2)), lambda: L.Convolution2D(1, (1, 1)),
        lambda: L.FullyConnected(2), shape=(4, 5, 2))
    seq(lambda: L.FullyConnected(3), lambda: L.Lstm(2),
        lambda: L.Dropout(0.5), lambda: L.FullyConnected(3, 'tanh'))
    return o


def layer(case, ctx):
    L = bs.layers
    mk, shape = layer_specs()[case['i']]
    for mask in (False, True):
        for reg in (None, 'l1', 'l2'):
            for end in (L.SquaredError, L.SigmoidCE, L.SquaredDifference):
                x = L.Input({'default': ('T', 'B') + shape,
                             't': ('T', 'B', 2), 'm': ('T', 'B', 1)})
                y = x
                for m in mk:
                    y = y >> m()
                if reg:
                    r = (L.L1Decay if reg == 'l1' else L.L2Decay)(name='r')
                    y >> r - 'loss' >> L.Loss(importance=0.25, name='rl')
                fc = L.FullyConnected(2, 'sigmoid', name='fc')
                if end is L.SquaredDifference:
                    e = L.SquaredDifference(name='end')
                    y >> fc >> 'inputs_1' - e
                    x - 't' >> 'inputs_2' - e
                    last = e
                else:
                    e = end(name='end')
                    y >> fc >> e
                    x - 't' >> 'targets' - e
                    last = e - 'loss'
                if mask:
                    k = L.Mask()
                    x - 'm' >> 'mask' - k
                    last = last >> k
                last >> L.Loss(importance=0.5, name='l')
                net = bs.Network.from_layer(x)
                net.set_handler(NumpyHandler(np.float64))
                net.output_name = 'fc.outputs.default'
                d = through_json(get_description(net))
                net2 = create_from_description(d)
                check(through_json(get_description(net2)) == d,
                      'described differently: {} {}', d,
                      get_description(net2))
                for tp in (False, True):
                    path = 'end.outputs.predictions' \
                        if end is not L.SquaredDifference else None
                    a, b = (go(n, tp, path) for n in (net, net2))
                    check(same(a, b), 'network of layer {} ({}, {}, {}): '
                          '{} instead of {}', case['i'], mask, reg,
                          end, b, a)
                d2 = through_json(get_description(net))
                net3 = create_from_description(d2)
                check(through_json(get_description(net3)) == d2,
                      'described differently')
                a, b = (go(n, False, path) for n in (net, net3))
                check(same(a, b), 'network after use: {} instead of {}', b, a)
                ctx.step(3)
                ctx.state(case['i'], mask, reg, end.__name__)
    ctx.trace()


def go(net, tp, path):
    net.initialize(ini.Gaussian(0.6), seed=8)
    shape = tuple(net.layers['Input'].out_shapes['default'].feature_shape)
    net.provide_external_data({'default': gen('in', (3, 2) + shape),
                               't': (gen('t', (3, 2, 2)) > 0).astype(float),
                               'm': np.array([1., 0, 1, 1, 1, 0]).reshape(
                                   3, 2, 1)})
    net.handler.rnd.set_seed(3)
    net.forward_pass(training_pass=tp)
    if tp:
        net.backward_pass()
    return [net.get('parameters'), net.get('gradients') if tp else 0,
            net.get(path or 'end.outputs.default'),
            sorted(net.get_loss_values().items()), net.output_name,
            list(net.layers), net.initializers]


def run(case, ctx):
    bs.global_rnd.set_seed(12)
    {'object': obj, 'names': names, 'container': container, 'toy': toy,
     'trainer': trainer, 'layer': layer}[case['k']](case, ctx)
