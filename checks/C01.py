"""Backpropagation yields the exact gradient of the total loss."""
import itertools

from brainstorm.utils import NetworkValidationError
from checks.specs import ACTS, UNARY, Builder, L, O, inp
from vmc.grad import gradient_case

BOUNDS = {
    'quick': 'all 14 one-input layer kinds alone and in all ordered pairs '
             '(1-D features), activations x5 on every parametrised layer, '
             'T<=4, B<=3 and one larger size, with and without context and '
             'after other passes; all 21 connection graphs of 3 nodes over '
             '4 layer types with losses on the last or on all nodes; every layer reading '
             'an output together with others, before and after them; all '
             'source assignments of the two/three-input layers; all '
             'loss layers on 1-D..3-D features; convolution/pooling on all '
             'images <=4x4, kernels <=3x3, strides <=2, padding <=2; '
             'parameter-to-loss connections; every single parameter and '
             'input entry is one transition'
             '; every one-input layer for every T, B and width from 5 to'
             ' 24 and 31..33, 50; convolution and pooling likewise in '
             'height, width, channels and filters',
    'thorough': 'as quick with T<=6, B<=4, all triples of one-input layers, '
                'graphs over 6 layer types, images <=5x5, strides <=3 and '
                'larger layer sizes',
}


def chain(items, shape=(2,), mask_shape=None):
    b = Builder(x=shape)
    src = O('Input', 'x')
    for i, (typ, kw) in enumerate(items):
        src = b.add('l%d' % i, typ, src, **kw)
    b.loss('loss', src, 1.0)
    return b.spec()


def graph(edges, types, all_losses):
    """edges[i]: tuple of predecessors of node i (0 = Input)"""
    b = Builder(x=[2])
    outs = [O('Input', 'x')]
    for i, (preds, typ) in enumerate(zip(edges, types)):
        kw = {} if typ in ('NoOp', 'BatchNorm', 'Dropout', 'Elementwise') \
            else dict(size=2)
        outs.append(b.add('n%d' % i, typ, [outs[p] for p in preds], **kw))
    if all_losses:
        for i in range(1, len(outs)):
            b.loss('loss%d' % i, outs[i], 0.5 * i)
    else:
        b.loss('loss', outs[-1], 1.3)
    return b.spec()


SIBLINGS = UNARY + [
    ('SigmoidCE', {}), ('SoftmaxCE', {}), ('SquaredError', {}),
    ('BinomialCrossEntropy', {}), ('Convolution2D', dict(
        num_filters=2, kernel_size=[2, 1], activation='tanh')),
    ('Pooling2D', dict(type='max', kernel_size=[1, 2])),
    ('Pooling2D', dict(type='avg', kernel_size=[2, 1])),
    ('Highway', {}), ('Merge', {}), ('SquaredDifference', {}), ('Loss', {})]


def sibling(typ, kw, sib, pre, st):
    image = typ in ('Convolution2D', 'Pooling2D')
    shape = [2, 2, 2] if image else [2]
    unit = typ == 'BinomialCrossEntropy'
    iname = 'u' if unit else 'x'
    b = Builder(**{iname: shape})
    src = O('Input', iname)
    if pre:
        src = b.add('a', 'FullyConnected', src, size=shape,
                    activation='sigmoid' if unit else 'tanh')

    def put(name, typ, kw, imp):
        ins = {'Highway': 'HTx', 'Merge': ['inputs_1', 'inputs_2'],
               'SquaredDifference': ['inputs_1', 'inputs_2']}.get(typ)
        if typ == 'Loss':
            b.loss(name, src, imp, weighted=False)
            return
        if ins:
            other = b.add(name + 'o', 'FullyConnected', src, size=2,
                          activation='tanh')
            b.layers.append([name, typ, {}, {
                n: [src if i == 0 else other] for i, n in enumerate(ins)}])
            b.shape[name, 'default'] = [4 if typ == 'Merge' else 2]
            o = O(name)
        else:
            o = b.add(name, typ, src, **kw)
        b.loss(name + 'l', o, imp)
    put('m', typ, kw, 1.3)
    for name in sib:
        if st == 'same':
            put(name, typ, kw, 0.6)
        else:
            put(name, st, dict(size=2, activation='tanh'), 0.4)
    return b.spec()


def subsets(n):
    return [c for k in range(1, n + 1)
            for c in itertools.combinations(range(n), k)]


LONG = list(range(5, 25)) + [31, 32, 33, 50]
RECURRENT = ['Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm']


def cases(tier):
    th = tier == 'thorough'
    # A: every layer alone, all sizes in time and batch, with context
    Ts, Bs = ([1, 2, 3, 4], [1, 2, 3])
    if th:
        Ts, Bs = [1, 2, 3, 4, 5, 6], [1, 2, 3, 4]
    for typ, kw in UNARY:
        for T in Ts:
            for B in Bs:
                yield dict(k='chain', items=[[typ, kw]], T=T, B=B)
        yield dict(k='chain', items=[[typ, kw]], T=3, B=2,
                   prelude=[[5, 4], [1, 1]])
        yield dict(k='chain', items=[[typ, kw]], T=6, B=5, shape=[9])
        yield dict(k='chain', items=[[typ, kw]], T=2, B=2, shape=[2, 3])
        yield dict(k='chain', items=[[typ, kw]], T=2, B=2, shape=[2, 2, 3])
    for typ in RECURRENT:
        for act in ACTS:
            for size in (1, 2, 4):
                for T in Ts:
                    for c in (False, True):
                        yield dict(k='chain', T=T, B=2, ctx=c, items=[
                            [typ, dict(size=size, activation=act)]])
            yield dict(k='chain', T=9, B=7, ctx=True, shape=[11], items=[
                [typ, dict(size=13, activation=act)]])
    for typ in ('Clockwork', 'ClockworkLstm'):
        for timing in itertools.product((1, 2, 3, 4, 5, 7), repeat=2):
            for T in ([5] if not th else [3, 5, 8]):
                for c in (False, True):
                    yield dict(k='chain', T=T, B=2, ctx=c, timing=timing,
                               items=[[typ, dict(size=2)]])
        yield dict(k='chain', T=12, B=2, timing=(3, 1, 4, 2, 6), shape=[3],
                   items=[[typ, dict(size=5)]])
    for act in ACTS:
        for shape, size in [([3], 2), ([1], 1), ([2, 2], 3), ([3], [2, 2]),
                            ([2, 3], [3, 1, 2]), ([17], 19), ([3], None)]:
            for T, B in [(1, 1), (2, 3), (5, 6)]:
                kw = dict(activation=act)
                if size:
                    kw['size'] = size
                yield dict(k='chain', T=T, B=B, shape=shape,
                           items=[['FullyConnected', kw]])
        yield dict(k='chain', T=2, B=2, shape=[3, 2],
                   items=[['Elementwise', dict(activation=act)]])
    for p in (0.0, 0.25, 0.5, 0.8):
        for shape in ([2], [3, 2], [2, 2, 2]):
            yield dict(k='chain', T=3, B=3, shape=shape,
                       items=[['FullyConnected', dict(activation='tanh')],
                              ['Dropout', dict(drop_prob=p)]])
    for eps in (1e-5, 0.5):
        for shape in ([1], [3], [2, 3], [2, 2, 2]):
            for T, B in [(1, 2), (3, 1), (2, 3), (4, 5)]:
                yield dict(k='chain', T=T, B=B, shape=shape, items=[
                    ['BatchNorm', dict(epsilon=eps, decay=0.7)]])
    for f in (-1.0, 0.0, 0.5, 2.0):
        yield dict(k='chain', T=2, B=2, shape=[3], items=[
            ['FullyConnected', dict(size=3, activation='tanh')],
            ['DeltasScaling', dict(factor=f)]])
    # every length, batch size and width
    for typ, kw in UNARY:
        for n in LONG:
            for T, B, shape in [(n, 1, 2), (2, n, 2), (2, 2, n)]:
                yield dict(k='chain', items=[[typ, kw]], T=T, B=B,
                           shape=[shape])
    # B: pairs (and triples)
    for a, b in itertools.product(UNARY, repeat=2):
        yield dict(k='chain', items=[a, b], T=3, B=2, ctx=True)
        yield dict(k='chain', items=[a, b], T=1, B=1)
    if th:
        for t in itertools.product(UNARY, repeat=3):
            yield dict(k='chain', items=list(t), T=3, B=2, ctx=True)
    # C: graphs
    types = ['FullyConnected', 'Lstm', 'NoOp', 'BatchNorm']
    if th:
        types += ['Recurrent', 'Elementwise']
    for e2 in subsets(2):
        for e3 in subsets(3):
            for tt in itertools.product(types, repeat=3):
                for al in (False, True):
                    yield dict(k='graph', edges=[[0], e2, e3], types=tt,
                               al=al)
    # wide fan-out: one output read by k layers, each with a loss
    for k in range(1, 6):
        for typ in types:
            yield dict(k='fan', n=k, typ=typ)
    # every layer reading an output that others read as well, before and
    # after it in the backward pass
    for typ, kw in SIBLINGS:
        for sib in ('b', 'z', 'bz'):
            for pre in (False, True):
                for st in ('FullyConnected', 'Loss', 'same'):
                    yield dict(k='sib', typ=typ, kw=kw, sib=sib, pre=pre,
                               st=st)
    # D: several inputs
    for perm in itertools.product(range(3), repeat=3):
        for T, B in [(1, 1), (2, 3)]:
            yield dict(k='highway', perm=perm, T=T, B=B)
    for perm in itertools.product(range(3), repeat=2):
        for typ in ('Merge', 'SquaredDifference'):
            for fs in ([2], [2, 3], [2, 1, 2]):
                yield dict(k='binary', typ=typ, perm=perm, fs=fs)
    for m in range(3):
        for fs in ([3], [2, 3], [2, 2, 3]):
            yield dict(k='mask', mode=m, fs=fs)
    for typ in ('SigmoidCE', 'SoftmaxCE', 'SquaredError',
                'BinomialCrossEntropy'):
        for fs in ([1], [3], [2, 3], [2, 2, 3], [12]):
            for T, B in [(1, 1), (2, 3), (3, 2)]:
                for pre in (False, True):
                    for weighted in (False, True):
                        if typ == 'BinomialCrossEntropy' and pre and \
                                len(fs) > 1:
                            continue
                        yield dict(k='loss', typ=typ, fs=fs, T=T, B=B,
                                   pre=pre, w=weighted)
    for typ in ('SigmoidCE', 'SoftmaxCE', 'SquaredError'):
        # predictions are read by somebody else as well
        yield dict(k='pred', typ=typ)
    # autoencoder style: the same data as input and as target
    yield dict(k='auto')
    # E: images
    hw = [(1, 1), (2, 3), (3, 3), (4, 2), (4, 4)]
    ker = list(itertools.product((1, 2, 3), repeat=2))
    strd = list(itertools.product((1, 2), repeat=2))
    if th:
        hw = list(itertools.product((1, 2, 3, 4, 5), repeat=2))
        strd = list(itertools.product((1, 2, 3), repeat=2))
    for (h, w), (kx, ky), st, p in itertools.product(hw, ker, strd,
                                                     (0, 1, 2)):
        if h + 2 * p < kx or w + 2 * p < ky:
            continue
        yield dict(k='conv', h=h, w=w, c=2, kx=kx, ky=ky, st=st, p=p, f=2,
                   act='tanh', T=1, B=2)
        for typ in ('max', 'avg'):
            yield dict(k='pool', h=h, w=w, c=2, kx=kx, ky=ky, st=st, p=p,
                       type=typ, T=2, B=1)
    for n in LONG[::3]:
        for T, B, h, w, c, f in [(n, 1, 2, 2, 1, 1), (1, n, 2, 2, 1, 1),
                                 (1, 1, n, 2, 1, 1), (1, 1, 2, n, 1, 1),
                                 (1, 2, 2, 2, n, 2), (1, 1, 2, 2, 2, n)]:
            yield dict(k='conv', h=h, w=w, c=c, kx=2, ky=2, st=[1, 1], p=0,
                       f=f, act='tanh', T=T, B=B)
            if f == 1 or f == 2:
                for typ in ('max', 'avg'):
                    yield dict(k='pool', h=h, w=w, c=c, kx=2, ky=2,
                               st=[1, 1], p=0, type=typ, T=T, B=B)
    for act in ACTS:
        for T, B, c, f in [(2, 3, 1, 1), (1, 1, 3, 5), (3, 1, 2, 2)]:
            yield dict(k='conv', h=5, w=4, c=c, kx=3, ky=2, st=[1, 2], p=1,
                       f=f, act=act, T=T, B=B)
    yield dict(k='cnn', T=1, B=2)
    yield dict(k='cnn', T=2, B=1)
    # F: parameters as sources
    for typ in ('FullyConnected', 'Recurrent', 'Lstm'):
        for n in (1, 2):
            for merge in (False, True):
                yield dict(k='param', typ=typ, n=n, merge=merge)
    # G: several losses and importances on one output
    for imps in itertools.product((-1.0, 0.0, 0.3, 1.0), repeat=2):
        yield dict(k='imps', imps=imps)


def run(case, ctx):
    k = case['k']
    T, B = case.get('T', 2), case.get('B', 2)
    kw = {}
    if k == 'chain':
        spec = chain(case['items'], case.get('shape', [2]))
        kw = dict(context=case.get('ctx', False),
                  prelude=case.get('prelude', ()),
                  timings=case.get('timing', (1.0, 2.0, 3.0)))
    elif k == 'graph':
        spec = graph(case['edges'], case['types'], case['al'])
    elif k == 'sib':
        spec = sibling(case['typ'], case['kw'], case['sib'], case['pre'],
                       case['st'])
    elif k == 'fan':
        b = Builder(x=[3])
        src = b.add('a', 'FullyConnected', O('Input', 'x'), size=2,
                    activation='tanh')
        for i in range(case['n']):
            lk = {} if case['typ'] in ('NoOp', 'BatchNorm', 'Elementwise') \
                else dict(size=2)
            o = b.add('b%d' % i, case['typ'], src, **lk)
            b.loss('loss%d' % i, o, 1.0 + i)
        spec = b.spec()
    elif k == 'highway':
        b = Builder(x=[2])
        outs = [O('Input', 'x'),
                b.add('a', 'FullyConnected', O('Input', 'x'), size=2,
                      activation='tanh'),
                b.add('c', 'FullyConnected', O('Input', 'x'), size=2,
                      activation='sigmoid')]
        b.layers.append(['hw', 'Highway', {}, {
            n: [outs[i]] for n, i in zip('HTx', case['perm'])}])
        b.shape['hw', 'default'] = [2]
        b.loss('loss', O('hw'))
        spec = b.spec()
    elif k == 'binary':
        fs = case['fs']
        b = Builder(x=fs, y=fs)
        outs = [O('Input', 'x'), O('Input', 'y'),
                b.add('c', 'FullyConnected', O('Input', 'x'), size=fs,
                      activation='tanh')]
        b.layers.append(['bin', case['typ'], {}, {
            'inputs_%d' % (n + 1): [outs[i]]
            for n, i in enumerate(case['perm'])}])
        b.shape['bin', 'default'] = fs if case['typ'] != 'Merge' else \
            fs[:-1] + [2 * fs[-1]]
        b.loss('loss', O('bin'))
        spec = b.spec()
    elif k == 'mask':
        fs = case['fs']
        ms = [[1], fs[:-1] + [1], fs][case['mode']]
        b = Builder(x=fs, m=ms)
        o = b.add('c', 'FullyConnected', O('Input', 'x'), size=fs,
                  activation='tanh')
        b.layers.append(['mask', 'Mask', {}, {'default': [o],
                                              'mask': [O('Input', 'm')]}])
        b.shape['mask', 'default'] = fs
        b.loss('loss', O('mask'))
        spec = b.spec()
    elif k == 'loss':
        fs = case['fs']
        unit = case['typ'] == 'BinomialCrossEntropy'
        b = Builder(**{'u' if unit else 'x': fs})
        o = O('Input', 'u' if unit else 'x')
        if case['pre']:
            o = b.add('pre', 'FullyConnected', o, size=fs,
                      activation='sigmoid' if unit else 'tanh')
        o = b.add('ce', case['typ'], o)
        b.loss('loss', o, 0.7, weighted=case['w'])
        spec = b.spec()
    elif k == 'pred':
        b = Builder(x=[3])
        o = b.add('pre', 'FullyConnected', O('Input', 'x'), size=3,
                  activation='tanh')
        o = b.add('ce', case['typ'], o)
        b.loss('loss', o, 0.7)
        b.shape['ce', 'predictions'] = [3]
        p = b.add('post', 'FullyConnected', O('ce', 'predictions'), size=2,
                  activation='tanh')
        b.loss('loss2', p)
        spec = b.spec()
    elif k == 'auto':
        b = Builder(x=[3])
        o = b.add('pre', 'FullyConnected', O('Input', 'x'), size=3,
                  activation='tanh')
        b.layers.append(['se', 'SquaredError', {},
                         {'default': [o], 'targets': [O('Input', 'x')]}])
        b.shape['se', 'loss'] = [3]
        b.loss('loss', O('se', 'loss'))
        spec = b.spec()
    elif k == 'conv':
        b = Builder(x=[case['h'], case['w'], case['c']])
        o = b.add('conv', 'Convolution2D', O('Input', 'x'),
                  num_filters=case['f'], kernel_size=[case['kx'], case['ky']],
                  stride=list(case['st']), padding=case['p'],
                  activation=case['act'])
        b.loss('loss', o)
        spec = b.spec()
    elif k == 'pool':
        b = Builder(x=[case['h'], case['w'], case['c']])
        o = b.add('pool', 'Pooling2D', O('Input', 'x'), type=case['type'],
                  kernel_size=[case['kx'], case['ky']],
                  stride=list(case['st']), padding=case['p'])
        b.loss('loss', o)
        spec = b.spec()
    elif k == 'cnn':
        b = Builder(x=[6, 5, 2])
        o = b.add('c1', 'Convolution2D', O('Input', 'x'), num_filters=3,
                  kernel_size=[3, 3], padding=1, activation='rel')
        o = b.add('p1', 'Pooling2D', o, type='max', kernel_size=[2, 2],
                  stride=[2, 2])
        o = b.add('bn', 'BatchNorm', o)
        o = b.add('c2', 'Convolution2D', o, num_filters=2,
                  kernel_size=[2, 2], activation='tanh')
        o = b.add('p2', 'Pooling2D', o, type='avg', kernel_size=[2, 1],
                  padding=0)
        o = b.add('fc', 'FullyConnected', o, size=3, activation='linear')
        o = b.add('ce', 'SoftmaxCE', o)
        b.loss('loss', o, weighted=False)
        spec = b.spec()
    elif k == 'param':
        b = Builder(x=[2])
        o = b.add('a', case['typ'], O('Input', 'x'), size=2,
                  activation='tanh')
        b.loss('loss', o)
        W = {'Lstm': 'Rf', 'Recurrent': 'R'}.get(case['typ'], 'W')
        src = ['a', 'parameters.' + W]
        if case['merge']:
            b.layers.append(['mg', 'Merge', {}, {'inputs_1': [src],
                                                 'inputs_2': [src]}])
            src = O('mg')
        for i in range(case['n']):
            b.layers.append(['pl%d' % i, 'Loss', dict(importance=0.5 + i),
                             {'default': [src]}])
        spec = b.spec()
    elif k == 'imps':
        b = Builder(x=[2])
        o = b.add('a', 'FullyConnected', O('Input', 'x'), size=2,
                  activation='tanh')
        for i, im in enumerate(case['imps']):
            b.loss('loss%d' % i, o, im, weighted=i == 0)
        spec = b.spec()
    try:
        gradient_case(spec, T, B, ctx, key=k, **kw)
    except NetworkValidationError as e:
        if 'lay out' in str(e) and k == 'graph':
            ctx.outcome('layout impossible')     # decided by C04
            return
        raise
