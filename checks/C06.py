"""A saved network loads back as an equivalent network."""
import copy
import itertools
import json
import os
import shutil
import tempfile

import h5py
import numpy as np

import brainstorm as bs
from brainstorm import initializers as ini
from brainstorm import value_modifiers as vm
from brainstorm.describable import create_from_description, get_description
from brainstorm.handlers import DebugHandler, NumpyHandler
from brainstorm.training import SgdStepper
from brainstorm.value_modifiers import ValueModifier
from vmc.core import Violation, check
from vmc.nets import gen

BOUNDS = {
    'quick': '8 architectures x all histories of <=2 (one: 3) of 20 operations '
             '(initializing in 4 ways, weight and gradient modifiers in 5 '
             'ways, handlers, training, resizing, writing and poisoning '
             'parameters, output name, saving / overwriting, going on with '
             'the loaded or the described network), the network saved, '
             'loaded and compared at the end of each, with a twin that was '
             'never saved',
    'thorough': 'as quick with histories of <=3 (one: 4) operations',
}

T = ('T', 'B')
SIZES = [(2, 3), (3, 1), (1, 4)]


class SaveNoise(ValueModifier):
    """A modifier of the user with randomness and options."""

    def __init__(self, std=0.1, extra=None):
        super(SaveNoise, self).__init__()
        self.std = std
        self.extra = extra

    def __call__(self, handler, view):
        a = handler.get_numpy_copy(view)
        handler.set_from_numpy(view, (a + self.std * self.rnd.standard_normal(
            a.shape)).astype(a.dtype))


def architectures():
    L = bs.layers

    def fc():
        x = L.Input({'default': T + (3,), 'targets': T + (2,)})
        e = L.SquaredError(name='err')
        x >> L.FullyConnected(3, 'tanh', name='a') >> L.FullyConnected(
            2, 'linear', name='b') >> e
        x - 'targets' >> 'targets' - e
        e - 'loss' >> L.Loss(importance=0.5)
        return x

    def lstm():
        x = L.Input({'default': T + (2,), 'targets': T + (1,),
                     'mask': T + (1,)})
        e, m = L.SoftmaxCE(name='err'), L.Mask()
        x >> L.Lstm(3, name='a') >> L.Recurrent(2, 'tanh', name='b') >> \
            L.FullyConnected(3, 'linear') >> e
        x - 'targets' >> 'targets' - e
        e - 'loss' >> m
        x - 'mask' >> 'mask' - m
        m >> L.Loss()
        return x

    def conv():
        x = L.Input({'default': T + (4, 4, 1), 'targets': T + (2,)})
        e = L.SigmoidCE(name='err')
        x >> L.Convolution2D(2, (2, 2), padding=1, activation='tanh',
                             name='a') >> L.Pooling2D((2, 2), type='max',
                                                      stride=(2, 2)) >> \
            L.FullyConnected(2, 'linear', name='b') >> e
        x - 'targets' >> 'targets' - e
        e - 'loss' >> L.Loss()
        return x

    def norm():
        x = L.Input({'default': T + (3,), 'targets': T + (2,)})
        e = L.SquaredError(name='err')
        x >> L.Dropout(0.3) >> L.FullyConnected(4, 'rel', name='a') >> \
            L.BatchNorm(name='n', decay=0.7) >> L.Dropout(0.5) >> \
            L.FullyConnected(2, 'sigmoid', name='b') >> e
        x - 'targets' >> 'targets' - e
        e - 'loss' >> L.Loss()
        return x

    def multi():
        x = L.Input({'default': T + (2,), 'targets': T + (2,)})
        h, z = L.FullyConnected(3, 'tanh', name='a'), L.FullyConnected(
            2, 'linear', name='b')
        for i, n in enumerate(('err', 'zerr', 'aerr')):
            e = L.SquaredError(name=n)
            x >> h >> z
            h >> z
            z >> e
            x - 'targets' >> 'targets' - e
            e - 'loss' >> L.Loss(importance=0.5 * i + 0.1, name='l' + n)
        h >> L.L2Decay(name='dec') - 'loss' >> L.Loss(0.25, name='ldec')
        return x

    def bare():
        x = L.Input({'default': T + (3,), 'targets': T + (3,)})
        e = L.SquaredError(name='err')
        x >> L.Elementwise('tanh', name='a') >> L.NoOp(name='b') >> e
        x - 'targets' >> 'targets' - e
        e - 'loss' >> L.Loss()
        return x

    def clock():
        x = L.Input({'default': T + (2,), 'targets': T + (2,)})
        e = L.SquaredError(name='err')
        x >> L.Clockwork(3, name='a') >> L.ClockworkLstm(
            2, name='k') >> L.FullyConnected(2, 'tanh', name='b') >> e
        x - 'targets' >> 'targets' - e
        e - 'loss' >> L.Loss()
        return x

    def named():
        """Names that need escaping, sorting, counting."""
        x = L.Input({'default': T + (2,), 'targets': T + (2,)})
        e = L.SquaredError(name='err')
        y = x
        for i in range(11):
            y = y >> L.FullyConnected(2, 'tanh')
        y >> L.FullyConnected(2, 'tanh', name='a') >> L.FullyConnected(
            2, name='b') >> e
        x - 'targets' >> 'targets' - e
        e - 'loss' >> L.Loss()
        return x
    return dict(fc=fc, lstm=lstm, conv=conv, norm=norm, multi=multi,
                bare=bare, clock=clock, named=named)


def cases(tier):
    names = ['fc', 'bare', 'norm', 'multi', 'lstm', 'conv', 'clock', 'named']
    for n in names:
        yield dict(k='hist', net=n, first=None, depth=0)
        for op in OPS:
            yield dict(k='hist', net=n, first=op, depth=3 if n == 'fc' else 2)
    if tier == 'thorough':
        for n in names:
            for op in OPS:
                yield dict(k='hist', net=n, first=op, depth=4 if n == 'fc' else 3)
    for n in names:
        yield dict(k='overwrite', net=n)
    yield dict(k='file')


class World(object):
    """A network with its history; words are replayed for every twin."""

    def __init__(self, name, tmp, saving=True):
        bs.global_rnd.set_seed(21)
        self.name, self.tmp, self.saving = name, tmp, saving
        self.net = bs.Network.from_layer(ARCH[name]())
        self.net.set_handler(NumpyHandler(np.float64))
        self.net.rnd.set_seed(6)
        self.net.handler.rnd.set_seed(9)
        self.nan = self.debug = self.inited = False
        self.count = 0

    def file(self, name='net.hdf5'):
        return os.path.join(self.tmp, name)

    def save(self, fn='net.hdf5', **kw):
        self.net.save_as_hdf5(self.file(fn), **kw)

    def layers(self):
        return [n for n in ('a', 'b') if len(
            self.net.buffer[n].parameters.keys())]

    def seeds(self):
        self.net.rnd.set_seed(6)
        h = self.net.handler
        (h.handler if isinstance(h, DebugHandler) else h).rnd.set_seed(9)

    def data(self, i):
        t, b = SIZES[i]
        out = {}
        for k, buf in self.net.layers['Input'].out_shapes.items():
            s = (t, b) + tuple(buf.feature_shape)
            x = gen((k, i), s)
            if k == 'mask':
                x = (x > -0.5).astype(float)
            elif k == 'targets' and self.name == 'lstm':
                x = (np.arange(x.size).reshape(s) % 3).astype(float)
            elif k == 'targets':
                x = (x > 0).astype(float)
            out[k] = x
        return out

    def do(self, op):
        net, ls = self.net, self.layers()
        self.count += 1
        self.inited |= op.startswith('init') or op == 'write'
        if op == 'init':
            net.initialize(ini.Gaussian(0.5))
        elif op == 'initseed':
            net.initialize({'default': ini.Uniform(-0.5, 0.5),
                            'fallback': 0.25}, seed=7)
        elif op == 'initmix':
            d = {'default': ini.DenseSqrtFanInOut('tanh'), 'fallback':
                 ini.Gaussian(0.3)}
            for l in ls:
                d[l] = {'default': ini.SparseInputs(ini.Gaussian(1.0), 1),
                        'fallback': 0.5}
                for p in net.buffer[l].parameters.keys():
                    if p.startswith('b'):
                        s = net.buffer[l].parameters[p].shape
                        d[l][p] = (np.arange(int(np.prod(s))).reshape(s) / 3)
            net.initialize(d)
        elif op == 'initlist':
            d = {'default': 0.125}
            for l in ls:
                d[l] = {p: np.linspace(-1, 1, int(np.prod(
                    net.buffer[l].parameters[p].shape))).reshape(
                        net.buffer[l].parameters[p].shape).tolist()
                    for p in net.buffer[l].parameters.keys()}
            net.initialize(d)
        elif op == 'wclip':
            net.set_weight_modifiers(vm.ClipValues(-0.4, 0.6))
        elif op == 'wlist':
            d = {'*': [vm.ClipValues(-0.5, 1.0), SaveNoise(
                0.05, extra=[1, {'k': None}])]}
            net.set_weight_modifiers(d)
        elif op == 'wnone':
            net.set_weight_modifiers({})
        elif op == 'wmask':
            d = {}
            for l in ls:
                d[l] = {}
                for p in net.buffer[l].parameters.keys():
                    s = net.buffer[l].parameters[p].shape
                    m = (gen((l, p), s) > 0).astype(np.float32)
                    d[l][p] = vm.FreezeValues(m) if p.startswith('b') else \
                        [vm.MaskValues(m), vm.ConstrainL2Norm(0.8)]
            net.set_weight_modifiers(d)
        elif op == 'gnoise':
            net.set_gradient_modifiers({'default': SaveNoise(0.1)})
        elif op == 'glist':
            net.set_gradient_modifiers(
                {'a': [vm.L2Decay(0.1), vm.ClipValues(-0.01, 0.02)],
                 'b': {'W': vm.L1Decay(0.3)}} if len(ls) == 2 and
                'W' in net.buffer.b.parameters else
                {'*': vm.L2Decay(0.3)})
        elif op == 'f32':
            net.set_handler(NumpyHandler(np.float32))
            net.handler.rnd.set_seed(self.count)
        elif op == 'debug':
            # BatchNorm divides by its parameter sigma, Clockwork by timing
            if not self.nan and self.name != 'clock' and (
                    self.name != 'norm' or self.inited):
                net.set_handler(DebugHandler(NumpyHandler(np.float64)))
                net.handler.handler.rnd.set_seed(self.count)
                self.debug = True
        elif op == 'train':
            s = SgdStepper(0.3)
            s.start(net)
            for i in (0, 1):
                net.provide_external_data(self.data(i))
                s.run()
                net.apply_weight_modifiers()
        elif op == 'resize':
            net.provide_external_data(self.data(2))
            net.forward_pass()
        elif op == 'write':
            p = net.get('parameters')
            net.handler.set_from_numpy(
                net.buffer.parameters,
                gen(('w', self.count), p.shape).astype(p.dtype))
        elif op == 'poison':
            p = net.get('parameters')
            if p.size and not self.debug:
                p[0] = np.nan
                p[-1] = -0.0
                p[p.size // 2] = -np.inf
                net.handler.set_from_numpy(net.buffer.parameters, p)
                self.nan = True
        elif op == 'outname':
            net.output_name = 'b.outputs.default'
        elif op == 'save':
            if self.saving:
                self.save('other%d.hdf5' % (self.count % 2))
        elif op == 'reload':
            # later results may only depend on what was saved
            if self.saving:
                self.save('other0.hdf5')
                self.net = bs.Network.from_hdf5(self.file('other0.hdf5'))
            self.seeds()
        elif op == 'describe':
            if self.saving:
                p = self.net.get('parameters')
                self.net = create_from_description(json.loads(json.dumps(
                    get_description(self.net))))
                self.net.handler.set_from_numpy(self.net.buffer.parameters, p)
            self.seeds()
        else:
            raise KeyError(op)


OPS = ['init', 'initseed', 'initmix', 'initlist', 'wclip', 'wlist', 'wmask',
       'wnone', 'gnoise', 'glist', 'f32', 'debug', 'train', 'resize',
       'write', 'poison', 'outname', 'save', 'reload', 'describe']
ARCH = architectures()


def bits(x):
    return x.dtype.str, x.shape, x.tobytes()


def near(x):
    """A computed array: equal up to rounding."""
    return Near(x.copy())


class Near(object):
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        a, b = self.x, other.x
        return a.dtype == b.dtype and a.shape == b.shape and np.allclose(
            a, b, rtol=1e-4 if a.dtype == np.float32 else 1e-9,
            atol=1e-5 if a.dtype == np.float32 else 1e-11, equal_nan=True)

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return repr(self.x.ravel()[:6].tolist())


def behaviour(w):
    """Everything observable from here on, all seeds equal."""
    net = w.net
    w.seeds()
    out = [('handler', get_description(net.handler)),
           ('type', type(net).__name__),
           ('out', net.output_name), ('layers', list(net.layers)),
           ('arch', json.loads(json.dumps(net.architecture))),
           ('init', json.loads(json.dumps(net.initializers))),
           ('wm', json.loads(json.dumps(get_description(
               net.weight_modifiers)))),
           ('gm', json.loads(json.dumps(get_description(
               net.gradient_modifiers)))),
           ('parameters', bits(net.get('parameters')))]
    quiet = w.nan and isinstance(net.handler, DebugHandler)
    if not quiet:
        for i in (1, 0):
            for tp in (False, True):
                net.provide_external_data(w.data(i))
                net.forward_pass(training_pass=tp)
                out.append(('fwd%d%d' % (i, tp), near(net.get(
                    'err.outputs.predictions')),
                    near(net.get('b.outputs.default'))))
                out.append(('loss', sorted(
                    (k, near(np.array(v))) for k, v in net.get_loss_values().items())))
            net.backward_pass()
            out.append(('grad%d' % i, near(net.get('gradients'))))
            net.apply_weight_modifiers()
            out.append(('modified%d' % i, near(net.get('parameters'))))
            ctx = net.get_context()
            net.provide_external_data(w.data(i))
            net.forward_pass(context=ctx)
            out.append(('context', near(net.get('b.outputs.default'))))
    if net.initializers:
        for seed in (3, None):
            net.initialize(create_from_description(net.initializers),
                           seed=seed)
            out.append(('again', seed, bits(net.get('parameters'))))
    net.initialize(ini.Gaussian(0.7), seed=5)
    out.append(('fresh', bits(net.get('parameters'))))
    return out


def differ(a, b):
    for x, y in zip(a, b):
        if x != y:
            return '%s is %r instead of %r' % (x[0], show(y), show(x))
    return 'lengths'


def show(x):
    out = []
    for v in x[1:]:
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], bytes):
            v = np.frombuffer(v[2], v[0]).ravel()[:6].tolist()
        out.append(v)
    return out


def hist(case, ctx):
    tmp = tempfile.mkdtemp()
    try:
        words = [()]
        if case['first'] is not None:
            words = [(case['first'],) + rest
                     for n in range(case['depth'])
                     for rest in itertools.product(OPS, repeat=n)
                     if worth((case['first'],) + rest)]
        for word in words:
            one(case['net'], word, tmp, ctx)
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


SETTERS = [{'init', 'initseed', 'initmix', 'initlist'},
           {'wclip', 'wlist', 'wmask', 'wnone'}, {'gnoise', 'glist'},
           {'f32', 'debug'}, {'outname'}]


def worth(word):
    """Setting the same thing twice in a row is setting it once."""
    return not any(a in s and b in s and a != 'initseed'
                   for a, b in zip(word, word[1:]) for s in SETTERS[1:])


def one(name, word, tmp, ctx):
    what = '%s after %s' % (name, word)
    w = World(name, tmp)
    for op in word:
        w.do(op)
    ctx.step(len(word))
    before = snapshot(w.net)
    w.save(comment='c')
    check(snapshot(w.net) == before, '{}: saving changed the network: {}',
          what, [k for k, v in snapshot(w.net).items() if v != before[k]])
    new = copy.copy(w)
    new.net = bs.Network.from_hdf5(w.file())
    check(snapshot(new.net, False) == static(before), '{}: loaded with other '
          '{}', what, [k for k, v in snapshot(new.net, False).items()
                       if v != before[k]])
    mine = behaviour(w)
    got = behaviour(new)
    check(mine == got, '{}: in the loaded network {}', what,
          differ(mine, got))
    if {'save', 'reload', 'describe'} & set(word):
        # as if it had never been saved, loaded or described
        twin = World(name, tmp, saving=False)
        for op in word:
            twin.do(op)
        want = behaviour(twin)
        check(mine == want, '{}: without saving and loading on the way {}',
              what, differ(mine, want))
        ctx.step()
    ctx.state(name, word)


def snapshot(net, dynamic=True):
    s = dict(params=bits(net.get('parameters')),
             arch=json.dumps(net.architecture, sort_keys=True),
             descr=json.dumps(get_description(net), sort_keys=True))
    if dynamic:
        s['grads'] = bits(net.get('gradients'))
        s['rnd'] = str(copy.deepcopy(net.rnd).randint(1 << 30))
        h = net.handler
        h = h.handler if isinstance(h, DebugHandler) else h
        s['hrnd'] = str(copy.deepcopy(h.rnd).randint(1 << 30))
        s['inputs'] = [bits(net.get('Input.outputs.' + k))
                       for k in net.buffer.Input.outputs.keys()]
        s['outs'] = bits(net.get('b.outputs.default'))
        s['ids'] = [id(l) for l in net.layers.values()] + [id(net.handler)]
        s['global'] = str(copy.deepcopy(bs.global_rnd).randint(1 << 30))
    return s


def static(s):
    return {k: s[k] for k in ('params', 'arch', 'descr')}


def overwrite(case, ctx):
    """A file is replaced by saving to it, whatever it was before."""
    tmp = tempfile.mkdtemp()
    try:
        for other in sorted(ARCH) + ['junk', 'empty', 'hdf5', 'longer']:
            w = World(case['net'], tmp)
            w.do('initseed')
            w.do('wlist')
            fn = w.file()
            if other in ARCH:
                o = World(other, tmp)
                o.do('init')
                o.do('glist')
                o.save(comment='x' * 1000)
            elif other == 'hdf5':
                with h5py.File(fn, 'w') as f:
                    f['parameters'] = np.arange(1000)
                    f['rest'] = 3
            else:
                with open(fn, 'wb') as f:
                    f.write(b'junk' * {'junk': 1, 'empty': 0,
                                       'longer': 10 ** 6}[other])
            w.save()
            for again in range(2):
                data = open(fn, 'rb').read()
                net = bs.Network.from_hdf5(fn)
                check(open(fn, 'rb').read() == data, 'loading changed the '
                      'file')
                check(static(snapshot(net)) == static(snapshot(w.net)),
                      '{} saved over {}: loaded something else', case['net'],
                      other)
                # changing the loaded network changes neither the file nor
                # the network it was saved from
                p = bits(w.net.get('parameters'))
                net.initialize(0.5)
                net.set_weight_modifiers({})
                check(bits(w.net.get('parameters')) == p and
                      open(fn, 'rb').read() == data, 'shared')
            a, b = (bs.Network.from_hdf5(fn) for _ in range(2))
            check(a is not b and a.handler is not b.handler, 'shared handler')
            a.initialize(0.5)
            check(bits(b.get('parameters')) == bits(w.net.get('parameters')),
                  'two loaded networks share parameters')
            ctx.step()
            ctx.state(case['net'], other)
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


def file_(case, ctx):
    """Comments are kept; errors are reported."""
    tmp = tempfile.mkdtemp()
    try:
        for comment in ('', 'some text', u'\xe4\u2603'):
            for name in sorted(ARCH):
                w = World(name, tmp)
                w.do('init')
                w.save(comment=comment)
                with h5py.File(w.file(), 'r') as f:
                    c = f.attrs.get('comment')
                    if comment:
                        c = c.decode() if isinstance(c, bytes) else str(c)
                        check(c == comment, 'comment {!r} stored as {!r}',
                              comment, c)
                check(static(snapshot(bs.Network.from_hdf5(w.file()))) ==
                      static(snapshot(w.net)), 'loaded something else')
                ctx.step()
                ctx.state(comment, name)
        for bad in ('missing.hdf5', 'nodir/x.hdf5'):
            try:
                bs.Network.from_hdf5(os.path.join(tmp, bad))
            except Exception:
                continue
            raise Violation('loaded a network from a missing file')
        try:
            w.save('nodir/x.hdf5')
        except Exception:
            pass
        else:
            raise Violation('saved to a missing directory')
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


def run(case, ctx):
    bs.global_rnd.set_seed(12)
    {'hist': hist, 'overwrite': overwrite, 'file': file_}[case['k']](case,
                                                                     ctx)
