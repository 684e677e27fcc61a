"""Wired architectures mean what was written, errors are reported."""
import copy
import itertools

import numpy as np

import brainstorm as bs
from brainstorm.handlers import NumpyHandler
from brainstorm.structure.architecture import generate_architecture
from brainstorm.structure.construction import ConstructionWrapper
from vmc.core import Violation, check
from vmc.nets import gen

BOUNDS = {
    'quick': 'every acyclic graph of <=3 layers (each reading any non-empty '
             'set of earlier layers / the input) x every order of writing '
             'its connections (all permutations up to 5 connections) x 4 '
             'writing styles; every assignment of 7 names to 4 layers x all '
             'orders of wiring them, architecture read after every step; 6 '
             'architectures with named inputs and outputs x orders x 5 '
             'styles; dictionary forms x all orders of layers; all layer '
             'functions with all options; every single fault of 12 kinds at '
             'every place of 7 architectures; input shapes x layers; 147 '
             'senseless values of every option of 10 layer types x 3 ways '
             'of building the network',
    'thorough': 'as quick with graphs of 4 layers and names on 5 layers',
}

T = ('T', 'B')


# ------------------------------------------------------ reference model --

class Ref(object):
    """The intended graph: layers in order of creation and connections."""

    def __init__(self, layers):
        self.layers = layers        # (type, name, options)
        self.edges = []             # (src, out, dst, inp)

    def component(self, start):
        comp, todo = {start}, [start]
        while todo:
            x = todo.pop()
            for s, _, d, _ in self.edges:
                for a, b in ((s, d), (d, s)):
                    if a == x and b not in comp:
                        comp.add(b)
                        todo.append(b)
        return sorted(comp)

    def names(self, comp):
        groups = {}
        for i in comp:
            typ, name, _ = self.layers[i]
            groups.setdefault(name or typ, []).append(i)
        single = {n for n, g in groups.items() if len(g) == 1}
        out = {}
        for n, g in groups.items():
            if len(g) == 1:
                out[g[0]] = n
                continue
            k = 1
            for i in g:
                while '%s_%d' % (n, k) in single:
                    k += 1
                out[i] = '%s_%d' % (n, k)
                k += 1
        return out

    def expected(self, start):
        comp = self.component(start)
        names = self.names(comp)
        check(len(set(names.values())) == len(comp), 'names of the model')
        conns = sorted((names[s], o, names[d], i) for s, o, d, i in
                       self.edges if s in names)
        layers = {names[i]: (self.layers[i][0], self.layers[i][2])
                  for i in comp}
        return layers, conns


def observed(arch):
    layers, conns = {}, []
    for name, d in arch.items():
        kw = {k: v for k, v in d.items() if not k.startswith('@')}
        layers[name] = (d['@type'], kw)
        for out, lst in d['@outgoing_connections'].items():
            for c in lst:
                dst, _, inp = c.partition('.')
                conns.append((name, out, dst, inp or 'default'))
    return layers, sorted(conns)


def make(ref):
    out = []
    for typ, name, kw in ref.layers:
        f = getattr(bs.layers, typ)
        if typ == 'Input':
            out.append(f(kw['out_shapes']))
        else:
            out.append(f(name=name, **kw))
    return out


def compare(arch, ref, start, what):
    got, want = observed(arch), ref.expected(start)
    check(got[1] == want[1], '{}: connections {} instead of {}', what,
          got[1], want[1])
    check(set(got[0]) == set(want[0]), '{}: layers {} instead of {}', what,
          sorted(got[0]), sorted(want[0]))
    for n, (typ, kw) in want[0].items():
        check(got[0][n][0] == typ, '{}: {} is a {}', what, n, got[0][n][0])
        for k, v in kw.items():
            check(k in got[0][n][1] and got[0][n][1][k] == v,
                  '{}: {} has options {}', what, n, got[0][n][1])


def write(w, edges, style):
    """Write the connections down, in this order and style; yields after
    every statement with the number of connections made so far."""
    def sub(i, out):
        return w[i] if out == 'default' and style != 'full' else w[i] - out

    def rsub(i, inp):
        return w[i] if inp == 'default' and style != 'full' else inp - w[i]
    if style in ('full', 'short'):
        for n, (s, o, d, i) in enumerate(edges):
            r = sub(s, o) >> rsub(d, i)
            check(r.layer is w[d].layer, '>> does not return its right side')
            yield n + 1
    elif style == 'pre':
        outs = {(s, o): w[s] - o for s, o, _, _ in edges}
        ins = {(d, i): i - w[d] for _, _, d, i in edges}
        for n, (s, o, d, i) in enumerate(edges):
            outs[s, o] >> ins[d, i]
            yield n + 1
    elif style == 'both':
        # names of the sides that do not take part must not matter
        for n, (s, o, d, i) in enumerate(edges):
            left = ('unused' - w[s]) - o
            right = (i - w[d]) - 'unused'
            left >> right
            yield n + 1
    elif style == 'chain':
        n = 0
        while n < len(edges):
            s, o, d, i = edges[n]
            cur = w[s] - o
            while True:
                nxt = edges[n + 1] if n + 1 < len(edges) else None
                if nxt and nxt[0] == d:
                    cur = cur >> i - w[d] - nxt[1]
                    n += 1
                    s, o, d, i = nxt
                    continue
                cur = cur >> i - w[d]
                n += 1
                break
            yield n


def orders(edges):
    if len(edges) <= 5:
        return list(itertools.permutations(edges))
    out = []
    for base in (edges, edges[::-1]):
        for k in range(len(base)):
            out.append(base[k:] + base[:k])
    out.append(sorted(edges, key=lambda e: (e[2], e[0])))
    out.append(sorted(edges, key=lambda e: (-e[2], e[0])))
    return out


STYLES = ('full', 'short', 'pre', 'chain')


# --------------------------------------------------------------- cases ----

def subsets(n):
    return [s for r in range(1, n + 1)
            for s in itertools.combinations(range(n), r)]


PORTS = ['ce', 'highway', 'lstm', 'merge', 'multi', 'mask']


def cases(tier):
    th = tier == 'thorough'
    for n in range(1, 5 if th else 4):
        srcs = [subsets(k + 1) for k in range(n)]
        for i, g in enumerate(itertools.product(*srcs)):
            yield dict(k='dag', g=[list(x) for x in g], types=i % 3)
    m = 5 if th else 4
    for first in range(len(NAMES)):
        for second in range(len(NAMES)):
            yield dict(k='names', pre=[first, second], n=m)
    for p in PORTS:
        yield dict(k='ports', p=p)
    for a in sorted(ARCHS):
        yield dict(k='dict', a=a)
        yield dict(k='faults', a=a)
    yield dict(k='factories')
    yield dict(k='api')
    yield dict(k='values')
    for t in sorted(SHAPED):
        yield dict(k='shapes', t=t)


# ---------------------------------------------------------------- graphs --

TYPES = [['FullyConnected', 'FullyConnected', 'FullyConnected',
          'FullyConnected'],
         ['Lstm', 'Elementwise', 'FullyConnected', 'Recurrent'],
         ['NoOp', 'Recurrent', 'BatchNorm', 'Elementwise']]


def dag(case, ctx):
    g = case['g']
    n = len(g)
    types = TYPES[case['types']][:n]
    layers = [('Input', None, {'out_shapes': {'default': T + (2,)}})]
    for i, t in enumerate(types):
        kw = {'size': i + 2} if t in ('FullyConnected', 'Lstm',
                                      'Recurrent') else {}
        layers.append((t, None if i % 2 == 0 else 'x%d' % (9 - i), kw))
    edges = [(s, 'default', i + 1, 'default') for i, ss in enumerate(g)
             for s in ss]
    size = [2]
    for i, ss in enumerate(g):
        total = sum(size[s] for s in ss)
        size.append(layers[i + 1][2].get('size', total))
    runs = {}
    for order in orders(edges):
        for style in STYLES:
            ref = Ref(layers)
            w = make(ref)
            for made in write(w, list(order), style):
                ref.edges = list(order[:made])
            what = 'connections %s written %s' % (list(order), style)
            arch = generate_architecture(w[0])
            compare(arch, ref, 0, what)
            ctx.step(len(edges))
        for start in range(n + 1):
            comp = ref.component(start)
            check(len(comp) == n + 1, 'model')
            compare(generate_architecture(w[start]), ref, start,
                    'generated from layer %d' % start)
        net = bs.Network.from_layer(w[order[0][2]])
        net.set_handler(NumpyHandler(np.float64))
        names = ref.names(range(n + 1))
        pos = {l: i for i, l in enumerate(net.layers)}
        check(set(pos) == set(names.values()), 'the network has layers {} '
              'instead of {}', sorted(pos), sorted(names.values()))
        for s, _, d, _ in edges:
            check(pos[names[s]] < pos[names[d]], 'layer {} comes before its '
                  'source {}: {}', names[d], names[s], list(pos))
        for i in range(1, n + 1):
            l = net.layers[names[i]]
            total = sum(size[s] for s in g[i - 1])
            check(tuple(l.in_shapes['default'].shape) == T + (total,) and
                  tuple(l.out_shapes['default'].shape) == T + (size[i],),
                  '{} has shapes {} and {}', names[i], l.in_shapes,
                  l.out_shapes)
            check(net.buffer[names[i]].outputs.default.shape[2:] ==
                  (size[i],), 'output buffer of {}', names[i])
        key = tuple(net.layers)
        if key not in runs:
            runs[key] = result(net, names[n])
            check(len(runs) == 1, 'the order of writing connections changed '
                  'the order of layers: {}', sorted(runs))
        elif order == orders(edges)[-1]:
            r = result(net, names[n])
            check(all(np.array_equal(a, b) for a, b in
                      zip(r, runs[key])), 'the order of writing connections '
                  'changed the result')
        ctx.state(tuple(map(tuple, g)), order)
    ctx.trace()


def result(net, last):
    bs.global_rnd.set_seed(3)
    net.rnd.set_seed(5)
    net.initialize(bs.initializers.Gaussian(0.7))
    net.provide_external_data({'default': gen('x', (3, 2, 2))},
                              all_inputs=False)
    net.forward_pass()
    return [net.get('parameters'), net.get(last + '.outputs.default')]


# ----------------------------------------------------------------- names --

NAMES = [None, 'a', 'a_1', 'a_2', 'a_1_1', 'NoOp_1', 'NoOp_2']


def names(case, ctx):
    n = case['n']
    for rest in itertools.product(range(len(NAMES)), repeat=n - 2):
        idx = case['pre'] + list(rest)
        layers = [('Input', None, {'out_shapes': {'default': T + (1,)}})]
        layers += [('NoOp', NAMES[i], {}) for i in idx]
        chain = [(i, 'default', i + 1, 'default') for i in range(n)]
        perms = list(itertools.permutations(chain))
        if n > 4:
            perms = perms[::7]
        for order in perms:
            ref = Ref(layers)
            w = make(ref)
            for made in write(w, list(order), 'short'):
                ref.edges = list(order[:made])
                if made < n and made != 2:
                    continue
                for start in ({0, order[made - 1][2]} if made == n
                              else {order[made - 1][2]}):
                    comp = ref.component(start)
                    want = ref.names(comp)
                    got = generate_architecture(w[start])
                    check(set(got) == set(want.values()), 'names {} instead '
                          'of {}', sorted(got), sorted(want.values()))
                    for i in comp:
                        check(w[i].layer.name == want[i], 'layer {} of {} '
                              'connected {} is called {}, expected {}', i,
                              [NAMES[j] for j in idx], list(order),
                              w[i].layer.name, want[i])
            check(observed(got) == ref.expected(start), 'connections {} '
                  'instead of {}', observed(got)[1], ref.expected(start)[1])
            ctx.step(n)
        ctx.state(tuple(idx))
        singles = [NAMES[i] for i in idx if idx.count(i) == 1 and NAMES[i]]
        check(set(singles) <= set(got), 'unique given names {} were not '
              'kept: {}', singles, sorted(got))
    ctx.trace()


# ----------------------------------------------------------- named ports --

def ports_graph(p):
    I = ('Input', None, {'out_shapes': {'default': T + (2,), 'targets':
                                        T + (1,), 'mask': T + (1,)}})
    fc = ('FullyConnected', None, {'size': 3, 'activation': 'tanh'})
    d = 'default'
    if p == 'ce':
        return [I, fc, ('SoftmaxCE', 'out', {}), ('Loss', None,
                                                 {'importance': 0.5})], [
            (0, d, 1, d), (1, d, 2, d), (0, 'targets', 2, 'targets'),
            (2, 'loss', 3, d)]
    if p == 'highway':
        f2 = ('FullyConnected', None, {'size': 2, 'activation': 'sigmoid'})
        return [I, f2, f2, ('Highway', None, {})], [
            (0, d, 1, d), (0, d, 2, d), (0, d, 3, 'x'), (1, d, 3, 'H'),
            (2, d, 3, 'T')]
    if p == 'lstm':
        return [I, ('Lstm', 'rnn', {'size': 2}), ('SquaredError', None, {}),
                ('FullyConnected', 'rnn', {'size': 1}), ('Loss', None, {})], [
            (0, d, 1, d), (1, d, 3, d), (3, d, 2, d),
            (0, 'targets', 2, 'targets'), (2, 'loss', 4, d)]
    if p == 'merge':
        return [I, fc, ('Merge', None, {}), ('SquaredDifference', None, {}),
                ('Merge', None, {})], [
            (0, d, 1, d), (0, 'mask', 2, 'inputs_2'), (1, d, 2, 'inputs_1'),
            (2, d, 3, 'inputs_1'), (2, d, 3, 'inputs_2'),
            (3, d, 4, 'inputs_1'), (0, d, 4, 'inputs_2')]
    if p == 'multi':
        return [I, fc, fc, fc, ('SoftmaxCE', None, {}), ('Loss', None, {}),
                ('Loss', None, {}), ('L2Decay', None, {})], [
            (0, d, 1, d), (0, d, 2, d), (1, d, 3, d), (2, d, 3, d),
            (3, d, 4, d), (0, 'targets', 4, 'targets'), (4, 'loss', 5, d),
            (1, d, 7, d), (7, 'loss', 6, d)]
    if p == 'mask':
        return [I, fc, ('Mask', 'm', {}), ('Mask', 'm', {})], [
            (0, d, 1, d), (1, d, 2, d), (0, 'mask', 2, 'mask'), (2, d, 3, d),
            (0, 'mask', 3, 'mask')]
    raise KeyError(p)


def ports(case, ctx):
    layers, edges = ports_graph(case['p'])
    seen = set()
    for order in orders(edges):
        for style in STYLES + ('both',):
            ref = Ref(layers)
            w = make(ref)
            for made in write(w, list(order), style):
                ref.edges = list(order[:made])
                for x in range(len(layers)):
                    compare(generate_architecture(w[x]), ref, x,
                            'connections %s written %s' % (
                                ref.edges, style))
            net = bs.Network.from_layer(w[-1])
            seen.add(tuple(net.layers))
            check(len(seen) == 1, 'layer order depends on the order of '
                  'writing: {}', seen)
            for i in range(len(layers)):
                nm = ref.names(range(len(layers)))[i]
                check(type(net.layers[nm]).__name__ == layers[i][0] +
                      'LayerImpl' and net.layers[nm].name == nm,
                      'layer {} is a {}', nm, type(net.layers[nm]))
                for k, v in layers[i][2].items():
                    check(k == 'out_shapes' or
                          net.layers[nm].kwargs[k] == v, 'layer {} has '
                          'options {}', nm, net.layers[nm].kwargs)
            ctx.step(len(edges))
        ctx.state(order)
    ctx.trace()


# ----------------------------------------------------- dictionary forms ---

def A(**layers):
    return layers


def In(conns, **shapes):
    return {'@type': 'Input', 'out_shapes': {k: T + tuple(v) for k, v in
                                             shapes.items()},
            '@outgoing_connections': conns}


def N(typ, conns=None, **kw):
    return dict(kw, **{'@type': typ, '@outgoing_connections': conns or {}})


ARCHS = {
    'ff': A(Input=In({'default': ['fc.default'],
                      'targets': ['out.targets']},
                     default=(2,), targets=(1,)),
            fc=N('FullyConnected', {'default': ['h.default']}, size=3),
            h=N('FullyConnected', {'default': ['out.default']}, size=3,
                activation='linear'),
            out=N('SoftmaxCE', {'loss': ['l.default']}),
            l=N('Loss', importance=2.0)),
    'rnn': A(Input=In({'default': ['rnn.default', 'm.default'],
                       'targets': ['e.targets'], 'mask': ['m.mask']},
                      default=(2,), targets=(2,), mask=(1,)),
             rnn=N('Lstm', {'default': ['e.default', 'd.default']}, size=2,
                   activation='rel'),
             m=N('Mask'),
             e=N('SquaredError', {'loss': ['l.default']}),
             d=N('L2Decay', {'loss': ['k.default']}),
             l=N('Loss'), k=N('Loss', importance=0.1)),
    'conv': A(Input=In({'default': ['c.default'], 'targets': ['o.targets']},
                       default=(5, 5, 2), targets=(1,)),
              c=N('Convolution2D', {'default': ['p.default']},
                  num_filters=2, kernel_size=(2, 2), activation='tanh'),
              p=N('Pooling2D', {'default': ['f.default']},
                  kernel_size=(2, 2), type='avg', stride=(2, 2)),
              f=N('FullyConnected', {'default': ['dr.default']}, size=2),
              dr=N('Dropout', {'default': ['o.default']}, drop_prob=0.2),
              o=N('SoftmaxCE', {'loss': ['l.default']}), l=N('Loss')),
    'highway': A(Input=In({'default': ['a.default', 'b.default', 'hw.x']},
                          default=(3,)),
                 a=N('FullyConnected', {'default': ['hw.H']}, size=3),
                 b=N('FullyConnected', {'default': ['hw.T']}, size=3,
                     activation='sigmoid'),
                 hw=N('Highway', {'default': ['bn.default']}),
                 bn=N('BatchNorm', decay=0.8)),
    'concat': A(Input=In({'default': ['a.default', 'b.default', 'c.default'],
                          'aux': ['c.default']}, default=(3,), aux=(2,)),
                a=N('FullyConnected', {'default': ['c.default',
                                                   'b.default']}, size=2),
                b=N('Elementwise', {'default': ['c.default']},
                    activation='tanh'),
                c=N('Recurrent', size=4)),
    'merge': A(Input=In({'default': ['m.inputs_1', 's.inputs_1'],
                         'aux': ['m.inputs_2'], 'bin': ['be.targets']},
                        default=(3,), aux=(3,), bin=(3,)),
               m=N('Merge', {'default': ['n.default']}),
               n=N('FullyConnected', {'default': ['s.inputs_2',
                                                  'sg.default']}, size=3),
               sg=N('Elementwise', {'default': ['be.default']},
                    activation='sigmoid'),
               be=N('BinomialCrossEntropy', {'default': ['l.default']}),
               s=N('SquaredDifference', {'default': ['ds.default']}),
               ds=N('DeltasScaling', factor=-1.0), l=N('Loss')),
    'sig': A(Input=In({'default': ['cw.default'], 'targets': ['o.targets']},
                      default=(2,), targets=(2,)),
             cw=N('Clockwork', {'default': ['cl.default']}, size=2),
             cl=N('ClockworkLstm', {'default': ['no.default']}, size=2),
             no=N('NoOp', {'default': ['o.default']}),
             o=N('SigmoidCE', {'loss': ['l.default'],
                               'predictions': ['l1.default']}),
             l1=N('L1Decay', {'loss': ['l.default']}), l=N('Loss')),
}


def shape_of(net):
    out = {}
    for n, l in net.layers.items():
        out[n] = (type(l).__name__, dict(l.kwargs),
                  {k: (v.shape, v.context_size, v.is_backward_only)
                   for k, v in l.in_shapes.items()},
                  {k: (v.shape, v.context_size, v.is_backward_only)
                   for k, v in l.out_shapes.items()},
                  {k: (v.shape, v.context_size, v.is_backward_only)
                   for k, v in l.parameter_shapes.items()})
    return list(net.layers), out


def dictforms(case, ctx):
    arch = ARCHS[case['a']]
    keep = copy.deepcopy(arch)
    base = bs.Network.from_architecture(arch)
    check(arch == keep, 'building changed the architecture')
    want = shape_of(base)
    layers = list(arch)
    pos = {n: i for i, n in enumerate(want[0])}
    for n in layers:
        for out, cs in arch[n]['@outgoing_connections'].items():
            for c in cs:
                check(pos[n] < pos[c.split('.')[0]], 'layer order {}',
                      want[0])
    perms = itertools.permutations(layers) if len(layers) <= 5 else \
        [tuple(layers[i:] + layers[:i])[::d] for i in range(len(layers))
         for d in (1, -1)]

    def variant(form, order, names):
        out = {}
        for n in order:
            d = copy.deepcopy(arch[n])
            oc = d['@outgoing_connections']
            new = {}
            for o in (sorted(oc) if names else sorted(oc, reverse=True)):
                cs = [c[:-8] if c.endswith('.default') and form % 2 else c
                      for c in (oc[o] if names else oc[o][::-1])]
                new[o] = tuple(cs) if form >= 4 else cs
            if form & 2 and set(new) <= {'default'}:
                new = new.get('default', [])
            d['@outgoing_connections'] = new
            out[n] = {k: d[k] for k in (sorted(d) if names else
                                        sorted(d, reverse=True))}
        return out
    for order in perms:
        for form in range(8):
            for names_ in (True, False):
                v = variant(form, order, names_)
                kv = copy.deepcopy(v)
                net = bs.Network.from_architecture(v)
                check(v == kv, 'building changed the architecture')
                got = shape_of(net)
                check(got[0] == want[0], 'layer order {} instead of {} for '
                      '{}', got[0], want[0], v)
                check(repr(got[1]) == repr(want[1]) or got[1] == want[1],
                      'layers {} instead of {}', got[1], want[1])
                if form in (0, 3):
                    r = [full(n, arch) for n in (net, base)]
                    check(all(np.array_equal(a, b) for a, b in zip(*r)),
                          'the same architecture written differently '
                          'computes something else')
                ctx.step()
        ctx.state(order)
    ctx.trace()


def full(net, arch):
    net.set_handler(NumpyHandler(np.float64, seed=4))
    net.rnd.set_seed(5)
    net.initialize(bs.initializers.Gaussian(0.5))
    data = {}
    for k, s in sorted(arch['Input']['out_shapes'].items()):
        x = gen(k, (2, 2) + tuple(s[2:]))
        data[k] = (x > 0).astype(float) if k in ('targets', 'bin', 'mask') \
            else x
    net.provide_external_data(data)
    net.forward_pass(training_pass=True)
    net.backward_pass()
    return [net.get('parameters'), net.get('gradients')] + [
        net.get('%s.outputs.%s' % (l, o)) for l in sorted(net.layers)
        for o in sorted(net.layers[l].out_shapes)]


# ------------------------------------------------------- single faults ----

def faults_of(arch):
    """(description, architecture) with exactly one fault."""
    def edit(f):
        a = copy.deepcopy(arch)
        r = f(a)
        return a if r is None else r

    def rename(a, old, new):
        out = {}
        for n, d in a.items():
            for o, cs in d['@outgoing_connections'].items():
                d['@outgoing_connections'][o] = [
                    new + c[len(old):] if c.split('.')[0] == old else c
                    for c in cs]
            out[new if n == old else n] = d
        return out
    for n in sorted(arch):
        for bad in ('Foo', 'fullyconnected', arch[n]['@type'] + 'x', 5,
                    None, ''):
            yield 'type of %s is %r' % (n, bad), edit(
                lambda a: a[n].update({'@type': bad}))
        yield '%s has no type' % n, edit(lambda a: a[n].pop('@type') and None)
        for k in ('foo', 'sise', 'nAme'):
            yield '%s has an option %s' % (n, k), edit(
                lambda a: a[n].update({k: 1}))
        for bad in ('default', 'fallback', '1a', 'a b', 'a.b', 'a-b', '',
                    'x*'):
            yield '%s is called %r' % (n, bad), edit(
                lambda a: rename(a, n, bad))
        for bad in (3, 'fc', None):
            yield 'connections of %s are %r' % (n, bad), edit(
                lambda a: a[n].update({'@outgoing_connections': bad}))
        for o, cs in sorted(arch[n]['@outgoing_connections'].items()):
            for i, c in enumerate(cs):
                dst, _, inp = c.partition('.')
                for new in (dst + 'x.' + inp, dst + '.nosuch', 'x' + c,
                            'Input.default', '.' + inp, n + '.' + inp):
                    yield 'connection %s of %s is %s' % (c, n, new), edit(
                        lambda a: a[n]['@outgoing_connections'][o]
                        .__setitem__(i, new))
                yield '%s.%s connected as output nosuch' % (n, o), edit(
                    lambda a: a[n]['@outgoing_connections'].setdefault(
                        'nosuch', []).append(
                            a[n]['@outgoing_connections'][o].pop(i)))
                if sum(c2 == c for d in arch.values() for cc in
                       d['@outgoing_connections'].values()
                       for c2 in cc) == 1:
                    yield '%s is not connected to %s' % (n, c), edit(
                        lambda a: a[n]['@outgoing_connections'][o].pop(i)
                        and None)
                if n != 'Input':
                    back = first_input(arch, n)
                    out = first_output(arch[dst]['@type'])
                    yield 'cycle %s %s' % (n, dst), edit(
                        lambda a: a[dst]['@outgoing_connections'].setdefault(
                            out, []).append(n + '.' + back))
                yield '%s also connects to the input layer' % n, edit(
                    lambda a: a[n]['@outgoing_connections'][o].append(
                        'Input.default'))
                yield '%s also connects to a missing layer' % n, edit(
                    lambda a: a[n]['@outgoing_connections'][o].append(
                        'missing'))
    yield 'no input layer', edit(lambda a: a.pop('Input') and None)
    yield 'input layer called Inp', edit(lambda a: rename(a, 'Input', 'Inp'))
    yield 'input layer called input', edit(
        lambda a: rename(a, 'Input', 'input'))
    yield 'second input layer', edit(lambda a: a.update(
        Second=In({}, default=(2,))))
    yield 'input is no input layer', edit(lambda a: a['Input'].update(
        {'@type': 'NoOp'}))
    yield 'input has no shapes', edit(lambda a: a['Input'].pop('out_shapes')
                                      and None)
    yield 'unconnected layer', edit(lambda a: a.update(alone=N('NoOp')))
    yield 'layer connected to itself', edit(lambda a: a.update(alone=N(
        'NoOp', {'default': ['alone.default']})))
    yield 'empty', {}
    for k in arch['Input']['out_shapes']:
        for bad in (T, ('B', 3), (3,), ('T', 3), ('B', 'T', 3),
                    ('T', 'B', 'F'), ('T', 'B', 2.5), ('T', 'B', -1), ()):
            yield 'input %s has shape %s' % (k, bad), edit(
                lambda a: a['Input']['out_shapes'].update({k: bad}))


def first_input(arch, n):
    for d in arch.values():
        for cs in d['@outgoing_connections'].values():
            for c in cs:
                if c.split('.')[0] == n:
                    return c.split('.')[1]


def first_output(typ):
    return {'SoftmaxCE': 'predictions', 'SigmoidCE': 'predictions',
            'SquaredError': 'predictions', 'Loss': 'loss',
            'L1Decay': 'loss', 'L2Decay': 'loss'}.get(typ, 'default')


def accepted(arch):
    try:
        net = bs.Network.from_architecture(arch)
    except Exception:
        return False
    return net


def faults(case, ctx):
    arch = ARCHS[case['a']]
    want = shape_of(bs.Network.from_architecture(copy.deepcopy(arch)))
    for what, bad in faults_of(arch):
        check(bad != arch, 'the fault {!r} changes nothing', what)
        keep = copy.deepcopy(bad)
        check(not accepted(bad), 'the ill-formed architecture was accepted: '
              '{}', what)
        check(bad == keep, 'rejecting an architecture changed it')
        ctx.step()
        ctx.state(what)
    got = shape_of(bs.Network.from_architecture(copy.deepcopy(arch)))
    check(repr(got) == repr(want), 'the well-formed architecture is built '
          'differently afterwards')
    ctx.trace()


# ------------------------------------------------- shapes layers accept ---

SHAPED = {
    # type: (options, input names, predicate on their feature shapes)
    'SoftmaxCE': ({}, ['default', 'targets'], lambda d, t:
                  len(d) == len(t) and d[:-1] == t[:-1] and t[-1] == 1),
    'SigmoidCE': ({}, ['default', 'targets'], lambda d, t: d == t),
    'SquaredError': ({}, ['default', 'targets'], lambda d, t: d == t),
    'BinomialCrossEntropy': ({}, ['default', 'targets'],
                             lambda d, t: d == t),
    'SquaredDifference': ({}, ['inputs_1', 'inputs_2'], lambda d, t: d == t),
    'Merge': ({}, ['inputs_1', 'inputs_2'], lambda d, t:
              d[:-1] == t[:-1]),
    'Highway': ({}, ['H', 'T', 'x'], lambda h, t, x: h == t == x),
    'Convolution2D': (dict(num_filters=2, kernel_size=(2, 2)), ['default'],
                      lambda d: len(d) == 3 and min(d[:2]) >= 2),
    'Pooling2D': (dict(kernel_size=(2, 2), type='max'), ['default'],
                  lambda d: len(d) == 3 and min(d[:2]) >= 2),
    'Mask': ({}, ['default', 'mask'], None),
}
FEATS = [(1,), (2,), (3,), (2, 1), (2, 2), (1, 2), (3, 2, 1), (2, 3, 2),
         (1, 1, 1), (1, 3, 2)]


def shapes(case, ctx):
    kw, ins, ok = SHAPED[case['t']]
    for fs in itertools.product(FEATS, repeat=len(ins)):
        arch = {'Input': In({'i%d' % i: ['x.' + n] for i, n in
                             enumerate(ins)},
                            **{'i%d' % i: f for i, f in enumerate(fs)}),
                'x': N(case['t'], **kw)}
        if ok is None:
            d, m = fs
            good = m == (1,) or m == d or None
            if m[-1] == 1 and m[:-1] == d[:-1]:
                good = True
            if good is None and (len(m) != len(d) or
                                 any(a != b and a != 1 for a, b in
                                     zip(m, d))):
                good = False
            if good is None:
                continue
        else:
            good = ok(*fs)
        if good:
            net = bs.Network.from_architecture(arch)
            for n, f in zip(ins, fs):
                check(tuple(net.layers['x'].in_shapes[n].shape) == T + f,
                      'in_shapes {}', net.layers['x'].in_shapes)
        else:
            check(not accepted(arch), '{} accepted inputs of shapes {}',
                  case['t'], fs)
        ctx.step()
        ctx.state(fs)
    ctx.trace()


# ------------------------------------------------------ layer functions ---

FACTORIES = [
    ('BatchNorm', [('decay', [0.9, 0.5, 0.0]), ('epsilon', [1e-5, 0.1])]),
    ('BinomialCrossEntropy', []), ('Highway', []), ('L1Decay', []),
    ('L2Decay', []), ('Mask', []), ('Merge', []), ('NoOp', []),
    ('SigmoidCE', []), ('SoftmaxCE', []), ('SquaredDifference', []),
    ('SquaredError', []),
    ('Clockwork', [('size', [None, 4]), ('activation', ['tanh', 'rel'])]),
    ('ClockworkLstm', [('size', [None, 4]), ('activation', ['tanh',
                                                            'linear'])]),
    ('Lstm', [('size', [None, 4]), ('activation', ['tanh', 'el'])]),
    ('Recurrent', [('size', [None, 4]), ('activation', ['tanh',
                                                        'sigmoid'])]),
    ('FullyConnected', [('size', [None, 4, (2, 3)]),
                        ('activation', ['rel', 'linear'])]),
    ('Convolution2D', [('num_filters', [None, 3]),
                       ('kernel_size', [None, (2, 3)]),
                       ('stride', [(1, 1), (2, 1)]), ('padding', [0, 2]),
                       ('activation', ['rel', 'tanh'])]),
    ('Pooling2D', [('kernel_size', [None, (2, 3)]), ('type', ['max', 'avg']),
                   ('stride', [(1, 1), (3, 2)]), ('padding', [0, 1])]),
    ('DeltasScaling', [('factor', [None, -0.5, 0.0])]),
    ('Dropout', [('drop_prob', [0.5, 0.0, 0.25])]),
    ('Elementwise', [('activation', ['rel', 'el'])]),
    ('Loss', [('importance', [1.0, 0.0, 2.5])]),
]
REQUIRED = ('size', 'num_filters', 'kernel_size', 'factor')


def factories(ctx):
    for typ, opts in FACTORIES:
        f = getattr(bs.layers, typ)
        for name in (None, 'given'):
            alts = []
            for k, vs in opts:
                req = k in REQUIRED and typ != 'FullyConnected'
                alts.append([(k, v) for v in vs[1 if req else 0:]] +
                            ([] if req else [(k, 'DEFAULT')]))
            for combo in itertools.product(*alts):
                kw = {k: v for k, v in combo if v != 'DEFAULT'}
                want = {k: v if v != 'DEFAULT' else dict(opts)[k][0]
                        for k, v in combo}
                if name:
                    kw['name'] = name
                w = f(**kw)
                check(isinstance(w, ConstructionWrapper) and
                      w.layer.layer_type == typ, 'bs.layers.{} makes a {}',
                      typ, w.layer.layer_type)
                check(w.layer.name == (name or typ), 'name {}', w.layer.name)
                d = generate_architecture(w)[name or typ]
                got = {k: v for k, v in d.items() if k[0] != '@'}
                if typ == 'FullyConnected' and want['size'] is None:
                    want.pop('size')
                    got.pop('size', None)
                check(got == want, 'bs.layers.{}({}) has options {} instead '
                      'of {}', typ, kw, got, want)
                ctx.step()
                ctx.state(typ, repr(combo))
            if name is None and opts:
                req = [k for k, v in opts if k in REQUIRED and
                       typ != 'FullyConnected']
                if req:
                    rejects(lambda: bs.Network.from_layer(
                        bs.layers.Input({'default': T + (4, 4, 1)}) >> f()),
                        'bs.layers.%s()' % typ)
            rejects(lambda: f(nosuch=1, **{k: v for k, v in zip(
                ['size', 'num_filters', 'kernel_size', 'factor'],
                [2, 2, (2, 2), 0.5]) if k in dict(opts)}),
                'bs.layers.%s(nosuch=1)' % typ)
    # defaults that depend on the inputs
    for feat, size in (((3,), (3,)), ((2, 2), (2, 2))):
        net = bs.Network.from_layer(
            bs.layers.Input({'default': T + feat}) >>
            bs.layers.FullyConnected())
        check(net.layers['FullyConnected'].out_shapes['default'].shape ==
              T + size, 'size of a layer without size')
    # with inputs and outputs of every kind through a network
    out = bs.Network.from_layer(
        bs.layers.Input({'default': T + (6, 5, 2)}) >>
        bs.layers.Convolution2D(3, (2, 3), (2, 1), 1, 'tanh', 'c') >>
        bs.layers.Pooling2D((2, 2), 'avg', (2, 3), 1, 'p') >>
        bs.layers.FullyConnected((2, 3), 'linear', 'f') >>
        bs.layers.Lstm(4, 'rel', 'l') >> bs.layers.Recurrent(5) >>
        bs.layers.Clockwork(3) >> bs.layers.ClockworkLstm(2))
    want = {'c': (4, 5, 3), 'p': (3, 2, 3), 'f': (2, 3), 'l': (4,),
            'Recurrent': (5,), 'Clockwork': (3,), 'ClockworkLstm': (2,)}
    for n, s in want.items():
        got = out.layers[n].out_shapes['default'].shape
        check(got == T + s, '{} has shape {} instead of {}', n, got, T + s)
    ctx.trace()


# What an option cannot be, and what it can
SIZES = ['2', -1, -3, 1.5, 2.0, [1.5], {}]
PAIRS = ['22', 2, (2,), (2, 2, 2), (), (2, -1), (-1, 2), (0, 2), (2, 0),
         (1.5, 2), (2, 1.5), (9, 1), (1, 9), None, {}]
STRIDES = ['11', 1, (1,), (1, 1, 1), (), (1, -1), (-1, 1), (0, 1), (1, 0),
           None, {}]
PADDINGS = [-1, 1.5, '1', None, (1, 1), []]
ACTIVATIONS = ['nope', 'Tanh', None, 1, '']
VALUES = [
    ('FullyConnected', dict(size=2), dict(
        size=SIZES + [(2, -1), (2, 1.5), ('a',)], activation=ACTIVATIONS)),
    ('Recurrent', dict(size=2), dict(
        size=SIZES + [None, (2, 2)], activation=ACTIVATIONS)),
    ('Lstm', dict(size=2), dict(
        size=SIZES + [None, (2, 2)], activation=ACTIVATIONS)),
    ('Clockwork', dict(size=2), dict(
        size=SIZES + [None, (2, 2)], activation=ACTIVATIONS)),
    ('ClockworkLstm', dict(size=2), dict(
        size=SIZES + [None, (2, 2)], activation=ACTIVATIONS)),
    ('Convolution2D', dict(num_filters=2, kernel_size=(2, 2)), dict(
        num_filters=['2', -1, 1.5, None, (2,)], kernel_size=PAIRS,
        stride=STRIDES, padding=PADDINGS, activation=ACTIVATIONS)),
    ('Pooling2D', dict(kernel_size=(2, 2)), dict(
        kernel_size=PAIRS, type=['nope', None, 1, 'Max'], stride=STRIDES,
        padding=PADDINGS)),
    ('BatchNorm', {}, dict(decay=[-0.1, 1.1, None, 'a'])),
    ('Dropout', {}, dict(drop_prob=[-0.1, 1.0, 1.1, None, 'a'])),
    ('Elementwise', {}, dict(activation=ACTIVATIONS)),
]


def values(ctx):
    """Every single value of an option that makes no sense is rejected."""
    for typ, good, bad in VALUES:
        def network(kw, style, typ=typ):
            f = getattr(bs.layers, typ)
            i = bs.layers.Input({'default': T + (4, 4, 1)})
            if style == 'alone':
                net = bs.Network.from_layer(i >> f(**kw))
            elif style == 'between':
                net = bs.Network.from_layer(
                    i >> bs.layers.Convolution2D(30, (1, 1)) >> f(**kw) >>
                    bs.layers.FullyConnected(50))
            else:
                arch = generate_architecture(i >> f(**good))
                arch[typ].update(kw)
                net = bs.Network.from_architecture(arch)
            net.initialize(0.5)
            net.provide_external_data({'default': np.ones((1, 1, 4, 4, 1))})
            net.forward_pass()
        for style in ('alone', 'between', 'written'):
            network(good, style)
            for option in sorted(bad):
                for value in bad[option]:
                    kw = dict(good)
                    kw[option] = value
                    rejects(lambda: network(kw, style), '%s(%s=%r)' % (
                        typ, option, value))
                    ctx.step()
                    ctx.state(typ, option, repr(value), style)
    ctx.trace()


def rejects(f, what):
    try:
        f()
    except Exception:
        return
    raise Violation('%s was accepted' % what)


def api(ctx):
    L = bs.layers
    for bad in ('default', 'fallback', '1a', 'a b', 'a.b', 'a-b', '*', 'a*',
                'ä', 'a:', ' a'):
        for typ, opts in FACTORIES:
            kw = {'size': 2, 'num_filters': 2, 'kernel_size': (2, 2),
                  'factor': 0.5}
            kw = {k: v for k, v in kw.items() if k in dict(opts)}
            rejects(lambda: getattr(L, typ)(name=bad, **kw),
                    '%s called %r' % (typ, bad))
            ctx.step()
    for good in ('a', 'A', '_', '_1', 'a1', 'default_', 'Fallback', 'Default',
                 'a__b', 'loss'):
        check(L.NoOp(name=good).layer.name == good, 'name {} was changed',
              good)
        ctx.step()
    for bad in (3, None, 'x', [1], object()):
        rejects(lambda: L.NoOp() >> bad, '>> %r' % (bad,))
        rejects(lambda: bad >> L.NoOp(), '%r >>' % (bad,))
        if not isinstance(bad, str):
            rejects(lambda: L.NoOp() - bad, '- %r' % (bad,))
            rejects(lambda: bad - L.NoOp(), '%r -' % (bad,))
        ctx.step()
    rejects(lambda: ConstructionWrapper.create('Foo'), 'a type not ending in '
            'LayerImpl')
    rejects(lambda: bs.Network.from_layer(L.NoOp()), 'a network without '
            'input')
    rejects(lambda: bs.Network.from_layer(
        L.Input({'default': T + (1,)}) >> 'nosuch' - L.NoOp()),
        'an unknown input name')
    rejects(lambda: bs.Network.from_layer(
        L.Input({'default': T + (1,)}) - 'nosuch' >> L.NoOp()),
        'an unknown output name')

    def two():
        x = L.NoOp()
        L.Input({'default': T + (1,)}) >> x
        L.Input({'default': T + (1,)}) >> x
        return bs.Network.from_layer(x)
    rejects(two, 'a network with two inputs')

    def cycle(n):
        ls = [L.NoOp() for _ in range(n)]
        L.Input({'default': T + (1,)}) >> ls[0]
        for i in range(n):
            ls[i] >> ls[(i + 1) % n]
        return bs.Network.from_layer(ls[0])
    for n in range(1, 5):
        rejects(lambda: cycle(n), 'a cycle of %d layers' % n)
        ctx.step()
    # the same input mentioned with an option of its own
    a = L.NoOp(name='a')
    b = a - 'x'
    c = 'y' - b
    check((a.input_name, a.output_name) == ('default', 'default') and
          (b.input_name, b.output_name) == ('default', 'x') and
          (c.input_name, c.output_name) == ('y', 'x') and
          a.layer is b.layer is c.layer, 'subtraction changed its operand')
    ctx.state('api')
    ctx.trace()


def run(case, ctx):
    k = case['k']
    if k == 'factories':
        factories(ctx)
    elif k == 'api':
        api(ctx)
    elif k == 'values':
        values(ctx)
    else:
        {'dag': dag, 'names': names, 'ports': ports, 'dict': dictforms,
         'faults': faults, 'shapes': shapes}[k](case, ctx)
