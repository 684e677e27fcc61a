"""Objects do not influence each other."""
import copy
import io
import itertools
import contextlib
import os
import shutil
import tempfile

import numpy as np

import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import data_iterators as D
from brainstorm import layers as layer_factories
from brainstorm.describable import create_from_description, get_description
from brainstorm.handlers import NumpyHandler
from brainstorm.initializers import Gaussian, Uniform
from brainstorm.structure.architecture import generate_architecture
from brainstorm.tools import evaluate, extract
from brainstorm.training.steppers import (MomentumStepper, NesterovStepper,
                                          SgdStepper)
from brainstorm.training.trainer import Trainer
from brainstorm.value_modifiers import (ClipValues, FreezeValues,
                                        L2Decay, MaskValues)
from checks import C07, C15
from vmc.core import Violation, check
from vmc.nets import architecture, gen, gen_int, generic_params, set_params

BOUNDS = {
    'quick': 'all interleavings with up to 2 switches of all pairs of 7 '
             'programs of 4-5 operations (17 kinds: passes, context, '
             'initialisation, modifiers, training, evaluation, extraction, '
             'saving and loading, handler switches) on two networks that '
             'share nothing / architecture / construction layers / '
             'description / file / handler / modifiers, initialisers, '
             'iterators and data, or of which one is the copy of the other, '
             '5 networks; all interleavings of two runs over 19 data '
             'iterators; all interleavings of training by two trainers and '
             'of two networks by one trainer; two objects of every '
             'describable class and option, from their constructor or one '
             'description, and two networks, one of them used and changed '
             'in every part; no operation changes its arguments, and nothing '
             'done to a result or argument afterwards changes the object',
    'thorough': 'as quick with all interleavings of the programs',
}

NETS = sorted(C15.NETS)
MODES = ['own', 'arch', 'wire', 'desc', 'copy', 'file', 'handler', 'objs']
PROGRAMS = ['d1 t b d0 f', 'd2 f c f', 'i m T M', 'I T T e', 'm T x s',
            'h d2 t b b', 'd0 t p f l']


def cases(tier):
    th = tier == 'thorough'
    sw = 99 if th else 2
    pairs = list(itertools.combinations_with_replacement(
        range(len(PROGRAMS)), 2))
    for i, net in enumerate(NETS):
        for m, mode in enumerate(MODES):
            if mode == 'handler' and net == 'bn':
                continue         # Dropout draws from the handler
            for p, progs in enumerate(pairs):
                # each mode and pair with three of the networks
                if not th and (i + m + p) % 5 > 2:
                    continue
                yield dict(k='nets', nets=[net, net], mode=mode,
                           progs=list(progs), switches=sw)
    for nets in itertools.permutations(NETS, 2):
        for mode in ('own', 'handler'):
            if mode == 'handler' and 'bn' in nets:
                continue
            for a, b in itertools.product(range(len(PROGRAMS)), repeat=2):
                if not th and (a + 2 * b) % 7 != NETS.index(nets[0]):
                    continue
                yield dict(k='nets', nets=list(nets), mode=mode,
                           progs=[a, b], switches=sw)
    for it in sorted(ITERS):
        yield dict(k='iter', it=it)
    for name in sorted(C07.CLASSES):
        yield dict(k='twins', cls=name)
    yield dict(k='trainertwins')
    for net in NETS:
        for st in sorted(STEPPERS):
            yield dict(k='trainers', net=net, st=st)
            for other in NETS:
                yield dict(k='onetrainer', net=net, other=other, st=st,
                           turns=4 if th else 3)
        yield dict(k='args', net=net)
        for mode in ('own', 'arch', 'wire', 'desc', 'copy', 'file'):
            yield dict(k='parts', net=net, mode=mode)
        yield dict(k='results', net=net)
        yield dict(k='grow', net=net)


# ------------------------------------------------------------- subjects --

OUT = 'out.outputs.predictions'


def wiring(net):
    """Construction layers of a network."""
    arch = architecture(C15.NETS[net])
    made = {}
    for name, typ, kw, ins in C15.NETS[net]:
        kw = {k: v for k, v in arch[name].items() if not k.startswith('@')}
        if typ == 'Input':
            made[name] = layer_factories.Input(**kw)
        else:
            made[name] = getattr(layer_factories, typ)(name=name, **kw)
    for name, typ, kw, ins in C15.NETS[net]:
        for iname, srcs in ins.items():
            for src, path in srcs:
                made[src] - path.replace('outputs.', '') >> iname - made[name]
    return made


def start(net, w):
    """Give a new network its parameters and seeds."""
    set_params(net, generic_params(net, (w, 'c25')))
    net.output_name = OUT
    net.rnd.set_seed(5 + w)
    if getattr(net, 'handler', None) is not None:
        net.handler.rnd.set_seed(6 + w)
    return net


class Shared(object):
    """What the two subjects have in common."""

    def __init__(self, nets, mode, tmp, which):
        bs.global_rnd.set_seed(3)
        self.handler = NumpyHandler(np.float64)
        self.mode, self.tmp = mode, tmp
        self.subjects = []
        made = {}
        if mode == 'arch':
            made['arch'] = architecture(C15.NETS[nets[0]])
        elif mode == 'wire':
            made['wire'] = wiring(nets[0])
        elif mode in ('desc', 'file'):
            net = bs.Network.from_architecture(
                architecture(C15.NETS[nets[0]]))
            net.set_handler(NumpyHandler(np.float64))
            net.initialize(0.5)
            net.set_weight_modifiers(ClipValues(-0.8, 0.8))
            net.set_gradient_modifiers(L2Decay(0.1))
            made['desc'] = get_description(net)
            made['file'] = os.path.join(tmp, 'shared.hdf5')
            net.save_as_hdf5(made['file'])
        self.objs = self.objects() if mode == 'objs' else None
        for w in range(2):
            if w not in which and mode != 'copy':
                self.subjects.append(None)
                continue
            if mode == 'arch':
                net = bs.Network.from_architecture(made['arch'])
            elif mode == 'wire':
                net = bs.Network.from_layer(made['wire']['loss'])
            elif mode == 'desc':
                net = create_from_description(made['desc'])
            elif mode == 'file':
                net = bs.Network.from_hdf5(made['file'])
            elif mode == 'copy' and w == 1:
                net = create_from_description(
                    get_description(self.subjects[0].net))
            else:
                net = bs.Network.from_architecture(
                    architecture(C15.NETS[nets[w]]))
            if mode not in ('desc', 'file', 'copy'):
                net.set_handler(self.handler if mode == 'handler' else
                                NumpyHandler(np.float64))
            elif mode == 'copy' and w == 0:
                net.set_handler(NumpyHandler(np.float64))
                net.set_gradient_modifiers(L2Decay(0.1))
            start(net, w)
            self.subjects.append(Subject(nets[w], net, w, self))

    @staticmethod
    def objects():
        return dict(
            init={'default': Gaussian(0.5), 'h': {'default': Uniform()}},
            wmod=ClipValues(-0.7, 0.7),
            gmod=[ClipValues(-0.2, 0.2), L2Decay(0.1)],
            freeze=FreezeValues(), iters={}, datas={}, scorers={})


class Subject(object):
    def __init__(self, name, net, w, shared):
        self.name, self.net, self.w, self.shared = name, net, w, shared
        self.o = shared.objs or Shared.objects()
        self.trainer = None

    def data(self, n):
        if n not in self.o['datas']:
            self.o['datas'][n] = C15.data(self.name, n, ('c25', n))
        return self.o['datas'][n]

    def iterator(self, n, shuffle=False):
        if n not in self.o['iters']:
            d = self.data(n)
            self.o['iters'][n] = D.Minibatches(
                2, shuffle, cut_according_to=None, **d)
        it = self.o['iters'][n]
        return it


def op_data(s, n):
    s.net.provide_external_data(s.data(n))


def op_forward(s):
    s.net.forward_pass()
    return s.net.get_loss_values()


def op_train_pass(s):
    s.net.forward_pass(training_pass=True)
    return s.net.get_loss_values()


def op_backward(s):
    s.net.backward_pass()
    return s.net.get('gradients')


def op_context(s):
    ctx = s.net.get_context()
    s.net.forward_pass(context=ctx)
    return s.net.get_loss_values()


def op_partial(s):
    d = s.data(1)
    name = sorted(d)[0]
    s.net.provide_external_data({name: d[name]}, all_inputs=False)


def op_init(s):
    s.net.initialize(s.o['init'], seed=4)
    fix_timing(s)


def op_init2(s):
    s.net.initialize(s.o['init'])
    fix_timing(s)


def fix_timing(s):
    if s.name == 'bn':
        # standard deviations must be positive
        set_params(s.net, {('bn', 'sigma'): np.array([0.7, 1.0, 1.3])})


def op_mods(s):
    mats = {l: {p: s.o['freeze'] for p in v.parameters.keys()
                if p in ('W', 'Wz')}
            for l, v in s.net.buffer.items()
            if hasattr(v, 'keys') and 'parameters' in v and l in ('p', 't',
                                                                  'r')}
    mats = {l: d for l, d in mats.items() if d}
    rest = {l: {p: s.o['wmod'] for p in v.parameters.keys()
                if p != 'sigma' and p not in mats.get(l, {})}
            for l, v in s.net.buffer.items()
            if hasattr(v, 'keys') and 'parameters' in v}
    for l, d in rest.items():
        d.update(mats.get(l, {}))
    s.net.set_weight_modifiers({l: d for l, d in rest.items() if d})
    s.net.set_gradient_modifiers(s.o['gmod'])
    return get_description(s.net)['gradient_modifiers'] and 1


def op_weight_mods(s):
    s.net.apply_weight_modifiers()


def op_train(s):
    if s.trainer is None:
        s.trainer = Trainer(MomentumStepper(0.1, 0.5), verbose=False)
        s.trainer.add_hook(H.StopAfterEpoch(1))
        s.trainer.add_hook(H.MonitorLoss('valid'))
        s.trainer.add_hook(H.MonitorLayerParameters('h'))
    else:
        s.trainer.hooks['StopAfterEpoch'].max_epochs += 1
    with quiet():
        s.trainer.train(s.net, s.iterator(3), valid=s.iterator(2))
    return [s.trainer.logs, s.trainer.current_epoch_nr,
            s.trainer.current_update_nr]


def op_evaluate(s):
    if 'a' not in s.o['scorers']:
        s.o['scorers']['a'] = C15.scorers(s.name)
    return evaluate(s.net, s.iterator(3), s.o['scorers']['a'])


def op_extract(s):
    return extract(s.net, s.iterator(3), [OUT, 'h.outputs.default'])


def op_save(s):
    f = os.path.join(s.shared.tmp, 'net%d.hdf5' % s.w)
    s.net.save_as_hdf5(f)
    net = bs.Network.from_hdf5(f)
    os.remove(f)
    return net.get('parameters')


def op_describe(s):
    bs.global_rnd.set_seed(9)
    net = create_from_description(get_description(s.net))
    net.rnd.set_seed(5)
    net.handler.rnd.set_seed(6)
    net.initialize(Gaussian(), seed=2)
    return net.get('parameters')


def op_handler(s):
    s.net.set_handler(s.shared.handler if s.shared.mode == 'handler' else
                      NumpyHandler(np.float64))
    s.net.handler.rnd.set_seed(8)


OPS = dict(d0=lambda s: op_data(s, 1), d1=lambda s: op_data(s, 2),
           d2=lambda s: op_data(s, 3), f=op_forward, t=op_train_pass,
           b=op_backward, c=op_context, p=op_partial, i=op_init, I=op_init2,
           m=op_mods, M=op_weight_mods, T=op_train, e=op_evaluate,
           x=op_extract, s=op_save, h=op_handler, l=op_describe)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


def arr(a):
    return np.array(a)


def buffers(net):
    out = {}
    for l in net.layers:
        for cat in net.buffer[l].keys():
            for n in net.buffer[l][cat].keys():
                out[l, cat, n] = arr(net.buffer[l][cat][n])
    out['parameters'] = arr(net.buffer.parameters)
    out['gradients'] = arr(net.buffer.gradients)
    return out


def everything(s):
    """All that can be seen of a subject."""
    return [buffers(s.net), sorted(s.net.layers), s.net.output_name,
            copy.deepcopy(s.net.architecture),
            get_description(s.net.weight_modifiers),
            get_description(s.net.gradient_modifiers),
            copy.deepcopy(s.net.initializers),
            None if s.trainer is None else copy.deepcopy(
                [s.trainer.logs, s.trainer.current_epoch_nr,
                 s.trainer.current_update_nr, sorted(s.trainer.hooks)])]


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and \
            a.tobytes() == b.tobytes()
    return type(a) == type(b) and (a == b or a != a and b != b)


def where(a, b, path=''):
    """The first place at which two observations differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return path + ': keys %r and %r' % (sorted(map(str, a)),
                                                sorted(map(str, b)))
        for k in a:
            if not same(a[k], b[k]):
                return where(a[k], b[k], '%s[%r]' % (path, k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return where(x, y, '%s[%d]' % (path, i))
    return '%s: %s and %s' % (path, str(a)[:80], str(b)[:80])


def same_or_fail(a, b, what, *args):
    if not same(a, b):
        raise Violation('%s (%s)' % (what.format(*args), where(a, b)))


def interleavings(n, m, switches):
    """All merges of n zeros and m ones with few changes."""
    for ones in itertools.combinations(range(n + m), m):
        word = [int(i in ones) for i in range(n + m)]
        if sum(x != y for x, y in zip(word, word[1:])) <= switches:
            yield word


def nets(case, ctx):
    progs = [PROGRAMS[p].split() for p in case['progs']]
    tmp = tempfile.mkdtemp(prefix='vmc25')
    try:
        alone = []
        for w in range(2):
            sh = Shared(case['nets'], case['mode'], tmp, [w])
            s = sh.subjects[w]
            seq = []
            for op in progs[w]:
                res = copy.deepcopy(OPS[op](s))
                seq.append((res, everything(s)))
            alone.append(seq)
        for word in interleavings(len(progs[0]), len(progs[1]),
                                  case['switches']):
            sh = Shared(case['nets'], case['mode'], tmp, [0, 1])
            last = [None, None]
            for w in range(2):
                last[w] = everything(sh.subjects[w])
            pos = [0, 0]
            done = []
            for w in word:
                op = progs[w][pos[w]]
                done.append('%s%d' % (op, w))
                res = OPS[op](sh.subjects[w])
                exp, state = alone[w][pos[w]]
                same_or_fail(res, exp, 'result of {} (network {}) after {} '
                             'is not that without the other network', op, w,
                             done)
                now = everything(sh.subjects[w])
                same_or_fail(now, state, 'network {} after {} is not what it '
                             'would be without the other', w, done)
                last[w] = now
                same_or_fail(everything(sh.subjects[1 - w]), last[1 - w],
                             '{} on network {} changed network {} (history '
                             '{})', op, w, 1 - w, done)
                pos[w] += 1
                ctx.step()
            ctx.trace()
            ctx.state(case['nets'], case['mode'], case['progs'], word)
    finally:
        shutil.rmtree(tmp)
    ctx.outcome(case['mode'], case['progs'])


# ------------------------------------------------------------ iterators --

def img(n=4):
    return dict(default=gen('c25img', (2, n, 4, 3, 1)),
                targets=gen_int('c25t', (2, n, 1), 3))


def seqd(n=4):
    return dict(default=gen_int('c25s', (3, n, 1), 4).astype(int),
                targets=gen('c25st', (3, n, 2)),
                mask=np.array([[1, 1, 1, 0], [1, 1, 0, 0],
                               [1, 0, 0, 0]], float)[:, :n, None])


ITERS = {
    'undivided': lambda d: D.Undivided(**d['i']),
    'mini': lambda d: D.Minibatches(1, False, **d['i']),
    'mini3': lambda d: D.Minibatches(3, False, **d['i']),
    'cut': lambda d: D.Minibatches(1, False, **d['s']),
    'onehot': lambda d: D.OneHot(D.Minibatches(1, False, **d['s']),
                                 {'default': 4}),
    'multihot': lambda d: D.MultiHot(D.Minibatches(1, False, **d['s']),
                                     {'default': 4}),
    'pad': lambda d: D.Pad(D.Minibatches(1, False, **d['i']),
                           {'default': 1}),
    'padpad': lambda d: D.Pad(D.Pad(D.Minibatches(2, False, **d['i']),
                                    {'default': 1}), {'default': 1},
                              {'default': 5}),
    'onehot1': lambda d: D.OneHot(D.Undivided(**d['s']), {'default': 4}),
    'pad1': lambda d: D.Pad(D.Undivided(**d['i']), {'default': 2}),
    'r-shuffle': lambda d: D.Minibatches(1, True, **d['i']),
    'r-shuffle2': lambda d: D.Minibatches(2, True, **d['s']),
    'r-noise': lambda d: D.AddGaussianNoise(D.Minibatches(1, False, **d['i']),
                                            {'default': 0.5}),
    'r-noise1': lambda d: D.AddGaussianNoise(D.Undivided(**d['i']),
                                             {'default': 0.5},
                                             {'default': 1.0}),
    'r-salt': lambda d: D.AddSaltNPepper(D.Minibatches(1, False, **d['i']),
                                         {'default': 0.5}),
    'r-flip': lambda d: D.Flip(D.Minibatches(1, False, **d['i'])),
    'r-flip1': lambda d: D.Flip(D.Undivided(**d['i']), {'default': 0.5}),
    'r-crop': lambda d: D.RandomCrop(D.Minibatches(1, False, **d['i']),
                                     {'default': (2, 2)}),
    'r-chain': lambda d: D.AddGaussianNoise(
        D.RandomCrop(D.Flip(D.Minibatches(1, True, **d['i'])),
                     {'default': (2, 2)}), {'targets': 0.5}),
}


def seeded(it, n):
    x, k = it, 0
    while x is not None:
        x.rnd.set_seed(n + k)
        x, k = getattr(x, 'iter', None), k + 1
    return it


def iters(case, ctx):
    h = NumpyHandler(np.float64)
    make = ITERS[case['it']]
    d = dict(i=img(), s=seqd())
    before = copy.deepcopy(d)
    rand = case['it'].startswith('r-')
    ref = []
    for w in range(2):
        it = seeded(make(copy.deepcopy(d)), 20 * w)
        ref.append([copy.deepcopy(b) for _ in range(2) for b in it(h)])
    n = len(ref[0]) // 2
    if not rand:
        check(all(same(a, b) for a, b in zip(ref[0][:n], ref[0][n:])),
              'a second run over {} gives something else', case['it'])
    setups = ['data'] + ([] if rand else ['same'])
    if rand and case['it'] != 'r-chain' and 'shuffle' not in case['it']:
        setups.append('inner')
    for setup in setups:
        for word in interleavings(n, n, 99):
            for wreck in (False, True):
                a = make(d)
                b = a if setup == 'same' else make(d)
                if setup == 'inner':
                    b.iter = a.iter
                seeded(a, 0)
                if b is not a:
                    seeded(b, 20)
                gens = [iter(a(h)), iter(b(h))]
                kept, pos = [], [0, 0]
                for w in word:
                    batch = next(gens[w])
                    exp = ref[w if setup != 'same' else 0][pos[w]]
                    same_or_fail(batch, exp, 'batch {} of run {} over {} in '
                                 'the order {} ({})', pos[w], w, case['it'],
                                 word, setup)
                    kept.append((batch, exp))
                    if wreck:
                        # the consumer may use the dictionary as it likes
                        kept[-1] = (dict(batch), exp)
                        batch.clear()
                        batch['x'] = None
                    pos[w] += 1
                    ctx.step()
                for g in gens:
                    check(next(g, None) is None, 'run over {} does not end',
                          case['it'])
                for batch, exp in kept:
                    same_or_fail(batch, exp, 'a batch from {} changed after '
                                 'it was delivered', case['it'])
                ctx.trace()
                ctx.state(case['it'], setup, word, wreck)
    if 'shuffle' in case['it']:
        # one iterator run twice at a time: every run is complete
        for word in interleavings(n, n, 99):
            a = seeded(make(d), 3)
            gens, got = [iter(a(h)), iter(a(h))], [[], []]
            for w in word:
                got[w].append(repr(next(gens[w])))
            for w in range(2):
                check(sorted(got[w]) == sorted(map(repr, ref[0][:n])),
                      'run {} over {} is not complete in the order {}', w,
                      case['it'], word)
            ctx.trace()
            ctx.state(case['it'], 'one', word)
    # runs abandoned at any point leave nothing behind
    for stop in range(n):
        a = make(d)
        g = iter(a(h))
        for _ in range(stop):
            next(g)
        g.close() if hasattr(g, 'close') else None
        seeded(a, 0)
        for i, batch in enumerate(a(h)):
            same_or_fail(batch, ref[0][i], 'batch {} of {} after a run '
                         'abandoned after {}', i, case['it'], stop)
    same_or_fail(d, before, 'iterating over {} changed the data', case['it'])


# ------------------------------------------------------------- trainers --

STEPPERS = dict(sgd=lambda: SgdStepper(0.1),
                mom=lambda: MomentumStepper(0.1, 0.6),
                nest=lambda: NesterovStepper(0.1, 0.6))


def trainer_for(st, epochs, name='StopAfterEpoch'):
    t = Trainer(STEPPERS[st](), verbose=False)
    t.add_hook(H.StopAfterEpoch(epochs))
    t.add_hook(H.MonitorLoss('valid'))
    return t


def more(t, net, train, valid):
    t.hooks['StopAfterEpoch'].max_epochs = t.current_epoch_nr + 1
    with quiet():
        t.train(net, train, valid=valid)


def new_net(name, w=0):
    net = bs.Network.from_architecture(architecture(C15.NETS[name]))
    net.set_handler(NumpyHandler(np.float64))
    return start(net, w)


def its(name):
    return [D.Minibatches(2, False, cut_according_to=None,
                          **C15.data(name, n, ('c25', n))) for n in (3, 2)]


def state_of(net):
    return [net.get('parameters'), net.get('gradients')]


def trainers(case, ctx):
    """Two trainers taking turns with one network."""
    name, st = case['net'], case['st']
    for word in itertools.product((0, 1), repeat=4):
        net = new_net(name)
        ts = [trainer_for(st, 1), trainer_for(
            'sgd' if st != 'sgd' else 'mom', 1)]
        for i, w in enumerate(word):
            twin = new_net(name)
            twin.handler.set_from_numpy(twin.buffer.parameters,
                                        net.get('parameters'))
            twin.rnd.set_seed(30 + i)
            twin.handler.rnd.set_seed(40 + i)
            net.rnd.set_seed(30 + i)
            net.handler.rnd.set_seed(40 + i)
            fresh = trainer_for(st if w == 0 else
                                'sgd' if st != 'sgd' else 'mom', 1)
            fresh.current_epoch_nr = ts[w].current_epoch_nr
            fresh.current_update_nr = ts[w].current_update_nr
            idle = copy.deepcopy(ts[1 - w].logs)
            logs = copy.deepcopy(ts[w].logs)
            tr, va = its(name)
            more(fresh, twin, tr, va)
            more(ts[w], net, tr, va)
            same_or_fail(state_of(net), state_of(twin), 'trainers taking '
                         'turns {}: turn {}', word, i)
            same_or_fail(ts[1 - w].logs, idle, 'logs of the other trainer '
                         'changed')
            for k in fresh.logs:
                for j in fresh.logs[k]:
                    old = logs.get(k, {}).get(j, [])
                    same_or_fail(ts[w].logs[k][j], old + fresh.logs[k][j],
                                 'log {}.{} of trainer {}', k, j, w)
            ctx.step()
        ctx.trace()
        ctx.state(name, st, word)


def onetrainer(case, ctx):
    """One trainer training two networks in turn."""
    names = [case['net'], case['other']]
    for word in itertools.product((0, 1), repeat=case['turns']):
        t = trainer_for(case['st'], 1)
        ns = [new_net(n, w) for w, n in enumerate(names)]
        for i, w in enumerate(word):
            twin = new_net(names[w], w)
            twin.handler.set_from_numpy(twin.buffer.parameters,
                                        ns[w].get('parameters'))
            for n in (twin, ns[w]):
                n.rnd.set_seed(30 + i)
                n.handler.rnd.set_seed(40 + i)
            fresh = trainer_for(case['st'], 1)
            fresh.current_epoch_nr = t.current_epoch_nr
            fresh.current_update_nr = t.current_update_nr
            other = buffers(ns[1 - w])
            tr, va = its(names[w])
            more(fresh, twin, tr, va)
            more(t, ns[w], tr, va)
            same_or_fail(state_of(ns[w]), state_of(twin), 'one trainer for '
                         'two networks {}: turn {}', word, i)
            same_or_fail(buffers(ns[1 - w]), other, 'training one network '
                         'changed the other')
            ctx.step()
        ctx.trace()
        ctx.state(names, case['st'], word)


# ------------------------------------------------- arguments and results --

def run_all(name, net):
    """What a network does, on fixed data and seeds."""
    net.rnd.set_seed(11)
    net.handler.rnd.set_seed(12)
    net.provide_external_data(C15.data(name, 2, 'runall'))
    net.forward_pass(training_pass=True)
    net.backward_pass()
    net.apply_weight_modifiers()
    return [buffers(net), net.get_loss_values()]


def wreck(x, depth=0):
    """Change everything inside a nested structure."""
    if isinstance(x, dict):
        for k in list(x):
            wreck(x[k], depth + 1)
        if depth:
            x['wrecked'] = 'yes'
            for k in list(x):
                if k != 'wrecked':
                    del x[k]
        else:
            x.clear()
    elif isinstance(x, list):
        for v in x:
            wreck(v, depth + 1)
        del x[:]
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = -77 if x.dtype.kind in 'fi' else x


def calls(name):
    """Operations on a network as (label, arguments, function)."""
    d = C15.data(name, 3, 'args')
    shapes = {l: {p: v.parameters[p].shape for p in v.parameters.keys()
                  if p != 'sigma'}
              for l, v in new_net(name).buffer.items()
              if hasattr(v, 'keys') and 'parameters' in v}
    shapes = {l: s for l, s in shapes.items() if s}
    some = {l: {p: [ClipValues(-0.5, 0.5), ClipValues(-0.4, 0.3)]
                for p in s} for l, s in shapes.items()}
    masks = {l: {p: MaskValues((np.arange(int(np.prod(sh))) % 2.0)
                               .reshape(sh)) for p, sh in s.items()}
             for l, s in shapes.items()}
    frz = {l: {p: [FreezeValues()] for p in s} for l, s in shapes.items()}
    values = {l: {p: gen((l, p), sh).tolist() for p, sh in s.items()}
              for l, s in shapes.items()}
    arrays = {l: {p: gen((l, p), sh) for p, sh in s.items()}
              for l, s in shapes.items()}
    if name == 'bn':
        for v in (values, arrays):
            v['bn']['sigma'] = [1.0, 2.0, 0.5]
    yield 'provide_external_data', [d], lambda n, a: \
        n.provide_external_data(a[0])
    yield 'initialize', [{'default': Gaussian()}], \
        lambda n, a: n.initialize(a[0], seed=3)
    yield 'initialize with lists', [values], lambda n, a: \
        n.initialize(a[0], seed=3)
    yield 'initialize with arrays', [arrays], lambda n, a: \
        n.initialize(a[0], seed=3)
    yield 'initialize by name', [values], lambda n, a: \
        n.initialize(seed=3, **a[0])
    for lab, m in (('lists', some), ('masks', masks), ('freeze', frz)):
        yield 'set_weight_modifiers ' + lab, [m], lambda n, a: \
            n.set_weight_modifiers(a[0])
        if lab != 'freeze':
            yield 'set_gradient_modifiers ' + lab, [m], lambda n, a: \
                n.set_gradient_modifiers(a[0])
        yield 'set_weight_modifiers by name ' + lab, [m], lambda n, a: \
            n.set_weight_modifiers(**a[0])


def snapshot(x):
    if isinstance(x, (dict, list, tuple, np.ndarray, str, int, float,
                      type(None))):
        if isinstance(x, dict):
            return {k: snapshot(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [snapshot(v) for v in x]
        return copy.deepcopy(x)
    if not hasattr(x, '__dict__') or isinstance(x, type) or callable(x) and \
            not hasattr(x, '__describe__'):
        return getattr(x, '__name__', type(x).__name__)
    return [type(x).__name__, snapshot({
        k: v for k, v in vars(x).items() if not k.startswith('_') and
        k != 'rnd'})]


def args(case, ctx):
    """Operations leave their arguments alone, and once an operation is
    over its arguments can be changed without effect."""
    name = case['net']
    for label, a, f in calls(name):
        a = copy.deepcopy(a)
        net = new_net(name)
        before = snapshot(a)
        f(net, a)
        same_or_fail(snapshot(a), before, '{} changed its arguments', label)
        exp = run_all(name, net)
        same_or_fail(snapshot(a), before, 'a pass after {} changed the '
                     'arguments', label)
        # the same arguments again, for another network
        net = new_net(name)
        f(net, a)
        same_or_fail(run_all(name, net), exp, '{} with the same arguments '
                     'twice', label)
        # arguments changed afterwards
        net = new_net(name)
        f(net, a)
        desc = get_description(net)
        wreck(a)
        same_or_fail(get_description(net), desc, 'description after changing '
                     'the arguments of {} afterwards', label)
        same_or_fail(run_all(name, net), exp, 'network after changing the '
                     'arguments of {} afterwards', label)
        ctx.step(3)
        ctx.state(name, label)
        ctx.trace()
    # creation
    exp = run_all(name, new_net(name))
    for label in ('from_architecture', 'create_from_description'):
        if label == 'from_architecture':
            a = architecture(C15.NETS[name])
            make = bs.Network.from_architecture
        else:
            a = get_description(new_net(name))
            make = create_from_description
        before = copy.deepcopy(a)
        net = make(a)
        same_or_fail(a, before, '{} changed its argument', label)
        desc = get_description(net)
        wreck(a)
        net.set_handler(NumpyHandler(np.float64))
        start(net, 0)
        same_or_fail(run_all(name, net), exp, 'network after changing the '
                     'argument of {} afterwards', label)
        same_or_fail(get_description(net)['architecture'],
                     desc['architecture'], 'description of the network after '
                     'changing the argument of {} afterwards', label)
        ctx.step()
        ctx.state(name, label)
        ctx.trace()


RESULTS = dict(
    get=lambda n, name: [n.get('parameters'), n.get('h.outputs.default'),
                         n.get('gradients'), n.get(OUT),
                         n.get('loss.outputs.loss')],
    get_input=lambda n, name: [n.get_input(k)
                               for k in sorted(C15.data(name, 1, 0))],
    losses=lambda n, name: n.get_loss_values(),
    description=lambda n, name: get_description(n),
    layerdesc=lambda n, name: get_description(n.handler),
    extract=lambda n, name: extract(n, its(name)[0], [OUT]),
    evaluate=lambda n, name: evaluate(n, its(name)[0], C15.scorers(name)),
    generated=lambda n, name: generate_architecture(wiring(name)['loss']),
)


def results(case, ctx):
    """Results can be changed without effect on the network."""
    name = case['net']
    for label, f in sorted(RESULTS.items()):
        def prepared():
            net = new_net(name)
            net.set_weight_modifiers(ClipValues(-0.8, 0.8))
            net.set_gradient_modifiers([L2Decay(0.1), ClipValues(-1, 1)])
            run_all(name, net)
            return net
        a, b = prepared(), prepared()
        ra, rb = f(a, name), f(b, name)
        same_or_fail(ra, rb, '{} twice', label)
        keep = copy.deepcopy(rb)
        wreck(ra)
        same_or_fail(everything(Subject(name, a, 0, _NoShare)),
                     everything(Subject(name, b, 0, _NoShare)),
                     'changing the result of {} changed the network', label)
        # later operations do not change a result handed out before
        same_or_fail(run_all(name, a), run_all(name, b), 'passes after '
                     'changing the result of {}', label)
        b.initialize(Gaussian(), seed=1)
        b.provide_external_data(C15.data(name, 1, 'later'))
        b.forward_pass()
        same_or_fail(rb, keep, 'a result of {} changed later', label)
        ctx.step(3)
        ctx.state(name, label)
        ctx.trace()
    # a context is a copy as well
    a, b = new_net(name), new_net(name)
    d = C15.data(name, 2, 'ctx')
    for n in (a, b):
        n.provide_external_data(d)
        n.forward_pass()
    ca, cb = a.get_context(), b.get_context()
    keep = copy.deepcopy(cb)
    wreck(ca)
    same_or_fail(buffers(a), buffers(b), 'changing a context changed the '
                 'network')
    b.forward_pass(context=cb)
    b.backward_pass()
    b.forward_pass(training_pass=True)
    same_or_fail(cb, keep, 'a context changed when it was used')
    held = [(cb, keep)]
    for i in range(3):
        b.provide_external_data(C15.data(name, 2, ('ctx', i)))
        b.forward_pass(context=held[-1][0])
        held.append((b.get_context(), None))
        held[-1] = held[-1][0], copy.deepcopy(held[-1][0])
        for c, k in held:
            same_or_fail(c, k, 'a context changed when others were taken')
    one = new_net(name)
    one.provide_external_data(d)
    one.forward_pass(context=cb)
    two = new_net(name)
    two.provide_external_data(C15.data(name, 2, 'other'))
    two.forward_pass()
    two.provide_external_data(d)
    two.forward_pass(context=cb)
    same_or_fail(buffers(one), buffers(two), 'a context used by two networks')
    ctx.step(3)
    ctx.trace()


# ---------------------------------------------------------------- twins --

def wreck_object(o, keep=('rnd', 'dtype', 'array_type', 'handler',
                          '__name__')):
    """Change everything an object carries in dicts, lists and arrays."""
    for k, v in sorted(vars(o).items()):
        if k in keep:
            continue
        if isinstance(v, (dict, list, np.ndarray)):
            wreck(v)
        elif hasattr(v, '__describe__'):
            wreck_object(v, keep)


def twins(case, ctx):
    """Two objects of one kind: whatever happens to the first one, the
    second and all later ones are what they would be without it."""
    cls, argss, probe = C07.CLASSES[case['cls']]
    for a in argss:
        def fresh():
            bs.global_rnd.set_seed(11)
            return C07.make((cls, a))

        def described():
            bs.global_rnd.set_seed(11)
            return create_from_description(desc)
        desc = C07.through_json(get_description(fresh()))
        for make in (fresh, described):
            want = probe(make())
            want_desc = C07.through_json(get_description(make()))
            look = snapshot(make())
            for order in ('later', 'both'):
                one = make()
                two = make() if order == 'both' else None
                probe(one)
                wreck_object(one)
                two = make() if two is None else two
                same_or_fail(snapshot(two), look, '{}({}) beside another one '
                             'that was used and changed', case['cls'], a)
                same_or_fail(C07.through_json(get_description(two)),
                             want_desc, 'description of {}({}) beside '
                             'another one', case['cls'], a)
                got = probe(two)
                check(C07.same(got, want), '{}({}) beside another one that '
                      'was used and changed gives {} instead of {}',
                      case['cls'], a, got, want)
                ctx.step()
                ctx.state(case['cls'], repr(a), make.__name__, order)
    ctx.trace()


def trainertwins(case, ctx):
    """Trainers from one description, trained in all orders."""
    for st in sorted(STEPPERS):
        desc = get_description(trainer_for(st, 1))
        keep = copy.deepcopy(desc)

        def go(t):
            net = new_net('ff')
            tr, va = its('ff')
            with quiet():
                t.train(net, tr, valid=va)
            return [copy.deepcopy(t.logs), t.current_epoch_nr,
                    t.current_update_nr, net.get('parameters')]

        def ev(t):
            net = new_net('ff')
            tr, va = its('ff')
            with quiet():
                return copy.deepcopy(t.evaluate(net, valid=va))
        want, want_ev = go(trainer_for(st, 1)), ev(trainer_for(st, 1))
        for word in itertools.product('tea', repeat=3):
            # train and evaluate others, or change what they carry
            ts = [create_from_description(desc) for _ in range(3)]
            for op, t in zip(word, ts):
                if op == 't':
                    same_or_fail(go(t), want, 'trainer from a description, '
                                 'order {}', word)
                elif op == 'e':
                    same_or_fail(ev(t), want_ev, 'evaluation by a trainer '
                                 'from a description, order {}', word)
                else:
                    go(t)
                    for x in (t.logs, t.results, t.hooks, t.train_scorers):
                        wreck(x)
                    if isinstance(t.train_scorers, list):
                        t.train_scorers.append(1)
                    t.logs['x'] = t.results['y'] = 1
                ctx.step()
            fresh = create_from_description(desc)
            check(not fresh.logs and not fresh.results and
                  not fresh.train_scorers and fresh.current_epoch_nr == 0,
                  'a new trainer from a description already has logs or '
                  'scorers')
            same_or_fail(go(fresh), want, 'trainer after others {}', word)
            same_or_fail(desc, keep, 'description changed')
            ctx.trace()
            ctx.state(st, word)


def parts(case, ctx):
    """Everything one network carries is its own."""
    name, mode = case['net'], case['mode']
    tmp = tempfile.mkdtemp(prefix='vmc25')
    try:
        def behaviour(net):
            start(net, 1)
            return [run_all(name, net), copy.deepcopy(get_description(net))]
        want = behaviour(Shared([name] * 2, mode, tmp, [0, 1]
                                if mode == 'copy' else [1]).subjects[1].net)
        for attr in ('architecture', 'initializers', 'weight_modifiers',
                     'gradient_modifiers', 'layers', 'kwargs', 'in_shapes',
                     'out_shapes', 'incoming', 'parameters', 'buffers'):
            for w in (0, 1) if mode != 'copy' else (0,):
                nets_ = [s.net for s in
                         Shared([name] * 2, mode, tmp, [0, 1]).subjects]
                victim, other = nets_[w], nets_[1 - w]
                if attr in ('kwargs', 'in_shapes', 'out_shapes'):
                    for l in victim.layers.values():
                        wreck(getattr(l, attr))
                elif attr == 'incoming':
                    for l in victim.layers.values():
                        l.incoming.clear()
                        l.outgoing.clear()
                elif attr == 'parameters':
                    victim.handler.fill(victim.buffer.parameters, 3.0)
                elif attr == 'buffers':
                    victim.provide_external_data(C15.data(name, 3, 'v'))
                    for l in victim.layers:
                        for cat in victim.buffer[l].keys():
                            for n in victim.buffer[l][cat].keys():
                                victim.buffer[l][cat][n][...] = -7
                else:
                    wreck(getattr(victim, attr))
                other.rnd.set_seed(6)
                start(other, 1)
                same_or_fail(behaviour(other), want, 'network after {} of '
                             'another one were changed ({})', attr, mode)
                ctx.step()
                ctx.state(name, mode, attr, w)
        ctx.trace()
    finally:
        shutil.rmtree(tmp)


class _NoShare(object):
    objs = None


def grow(case, ctx):
    """Wiring that goes on after a network was made from it."""
    name = case['net']
    exp = run_all(name, new_net(name))
    made = wiring(name)
    arch = generate_architecture(made['loss'])
    keep = copy.deepcopy(arch)
    net = bs.Network.from_layer(made['loss'])
    made['h'] >> layer_factories.FullyConnected(2, name='extra') >> \
        layer_factories.Loss(name='extra_loss')
    net.set_handler(NumpyHandler(np.float64))
    same_or_fail(arch, keep, 'an architecture changed by further wiring')
    arch2 = get_description(net)['architecture']
    check('extra' not in arch2, 'further wiring appears in a network made '
          'before')
    start(net, 0)
    same_or_fail(run_all(name, net), exp, 'network after further wiring')
    bigger = bs.Network.from_layer(made['loss'])
    check('extra' in bigger.layers, 'further wiring is lost')
    for l in ('h', 'out', 'loss'):
        check(l in bigger.layers, 'layer {} lost', l)
    # wirings of their own with the same names
    one, two = wiring(name), wiring(name)
    one['h'] >> layer_factories.FullyConnected(2, name='extra') >> \
        layer_factories.Loss(name='extra_loss')
    net = bs.Network.from_layer(two['loss'])
    net.set_handler(NumpyHandler(np.float64))
    start(net, 0)
    same_or_fail(run_all(name, net), exp, 'network beside another wiring')
    ctx.step(3)
    ctx.trace()
    ctx.state(name)


def run(case, ctx):
    dict(nets=nets, iter=iters, trainers=trainers, onetrainer=onetrainer,
         args=args, results=results, grow=grow, twins=twins,
         trainertwins=trainertwins, parts=parts)[case['k']](case, ctx)
