"""Every feed-forward layer computes its documented function."""
import itertools

import numpy as np

import brainstorm as bs
from brainstorm import layers as bl
from brainstorm.handlers import NumpyHandler
from checks.specs import ACTS, Builder, O
from vmc import ref
from vmc.core import Violation, check
from vmc.grad import (compare_forward, compare_losses, input_data, lift,
                      nested, observe_drops)
from vmc.nets import (expect_close, find_order, gen, generic_params, get_params,
                      make_net, set_params)

BOUNDS = {
    'quick': 'every non-recurrent layer type; feature shapes of 1-3 '
             'dimensions with sizes <=4 plus larger ones (up to 40); T,B in '
             '1..4 plus (7,6); all activations; values scaled by 1, 1e-3, '
             '30, 1e4, -abs; training and evaluation mode; default-option '
             'constructors; convolution / pooling on all images <=5x5, '
             'kernels <=3x3, strides <=3, padding <=2, 1-3 channels; all '
             '0/1 images 2x2 / 2x3 for pooling ties; batch-norm statistics over '
             'all training/evaluation pass sequences of length <=4; all NaN and '
             'infinite losses of <=3 loss layers; float64 and '
             'float32 handlers'
             '; every layer for every T, B and feature size from 5 to 35'
             ' and around 48, 64, 100 and 128, convolution and pooling '
             'for every third of these in every dimension',
    'thorough': 'as quick with images <=7x7, kernels <=4x4, strides <=4, '
                'padding <=3, all 0/1 images 3x3, pass sequences of length '
                '<=7, T,B in 1..6',
}

SCALES = {'one': (1.0, 0.0), 'tiny': (1e-3, 0.0), 'big': (30.0, 0.0),
          'huge': (1e4, 0.0), 'neg': (1.0, -2.0), 'pos': (1.0, 2.0)}
SHAPES = [[1], [2], [3], [7], [2, 3], [3, 1], [2, 2, 3], [1, 4, 2]]
UN = ['FullyConnected', 'BatchNorm', 'Dropout', 'Elementwise', 'NoOp',
      'Mask', 'DeltasScaling', 'L1Decay', 'L2Decay', 'SigmoidCE',
      'SoftmaxCE', 'SquaredError', 'BinomialCrossEntropy']


LONG = list(range(5, 36)) + [48, 63, 64, 65, 99, 100, 101, 127, 128, 129]


def cases(tier):
    th = tier == 'thorough'
    tbs = list(itertools.product(range(1, 7 if th else 4), repeat=2))
    for typ in UN:
        for fs in SHAPES:
            for T, B in tbs + [(7, 6)]:
                for tr in (False, True):
                    yield dict(k='un', typ=typ, kw=default_kw(typ), fs=fs,
                               T=T, B=B, tr=tr, sc='one')
            for sc in SCALES:
                for tr in (False, True):
                    yield dict(k='un', typ=typ, kw=default_kw(typ), fs=fs,
                               T=2, B=3, tr=tr, sc=sc)
        for fs in ([40], [17, 3], [9, 8, 5]):
            for dt in ('d', 'f'):
                yield dict(k='un', typ=typ, kw=default_kw(typ), fs=fs, T=2,
                           B=5, tr=True, sc='one', dt=dt)
        # every length of every dimension, and around powers of two
        big = [(n, 1, [2]) for n in LONG] + [(1, n, [2]) for n in LONG] + \
            [(2, 3, [n]) for n in LONG] + [(2, 1, [n, 2]) for n in LONG] + \
            [(65, 33, [3]), (130, 1, [2, 2]), (3, 130, [3, 2])]
        for T, B, fs in big:
            yield dict(k='un', typ=typ, kw=default_kw(typ), fs=fs, T=T, B=B,
                       tr=True, sc='one')
    for typ in ('Merge', 'SquaredDifference', 'Highway'):
        for n in LONG:
            for T, B, fs in [(n, 1, [2]), (1, n, [2]), (1, 2, [n])]:
                yield dict(k='multi', typ=typ, fs=fs, w2=fs[-1], T=T, B=B)
    for n in LONG[::3]:
        for T, B, h, w, c, f in [(n, 1, 2, 2, 1, 1), (1, n, 2, 2, 1, 1),
                                 (1, 1, n, 2, 1, 1), (1, 1, 2, n, 1, 1),
                                 (1, 2, 2, 2, n, 2), (1, 1, 2, 2, 2, n)]:
            yield dict(k='img', h=h, w=w, c=c, f=f, kx=2, ky=2, st=(1, 1),
                       p=0, T=T, B=B)
    for act in ACTS:
        for sc in SCALES:
            for fs, size in [([3], 2), ([2, 3], [2, 2]), ([4], None),
                             ([2, 2], None), ([1], 1), ([33], 37),
                             ([2, 3], [3, 1, 2])]:
                kw = dict(activation=act)
                if size:
                    kw['size'] = size
                for tr in (False, True):
                    yield dict(k='un', typ='FullyConnected', kw=kw, fs=fs,
                               T=2, B=3, tr=tr, sc=sc)
            yield dict(k='un', typ='Elementwise', kw=dict(activation=act),
                       fs=[2, 3], T=3, B=2, tr=True, sc=sc)
    for eps in (1e-5, 1e-2, 1.0):
        for dec in (0.0, 0.5, 0.9, 1.0):
            for fs in ([1], [3], [2, 3], [2, 2, 2]):
                yield dict(k='un', typ='BatchNorm', fs=fs, T=2, B=3, tr=True,
                           kw=dict(epsilon=eps, decay=dec), sc='one')
    for n in range(1, 8 if th else 5):
        for seq in itertools.product((True, False), repeat=n):
            for fs in ([2], [2, 2, 3]):
                yield dict(k='bnseq', seq=seq, fs=fs)
    for p in (0.0, 0.1, 0.3, 0.5, 0.9):
        for fs in ([40], [5, 8], [4, 5, 2]):
            yield dict(k='drop', p=p, fs=fs)
    for m in range(3):
        for fs in SHAPES:
            for T, B in [(1, 1), (2, 3), (4, 2)]:
                yield dict(k='mask', mode=m, fs=fs, T=T, B=B)
    for typ in ('Merge', 'SquaredDifference', 'Highway'):
        for fs in SHAPES:
            for w2 in (1, 2, 5) if typ == 'Merge' else (None,):
                for T, B in [(1, 1), (2, 3), (4, 2), (5, 7)]:
                    yield dict(k='multi', typ=typ, fs=fs, w2=w2, T=T, B=B)
    # images
    N = 7 if th else 5
    sizes = [(h, w) for h in range(1, N + 1) for w in range(1, N + 1)
             if th or abs(h - w) <= 2]
    ker = list(itertools.product(range(1, 5 if th else 4), repeat=2))
    strd = list(itertools.product(range(1, 5 if th else 4), repeat=2))
    for (h, w), (kx, ky), st, p in itertools.product(
            sizes, ker, strd, range(0, 4 if th else 3)):
        if h + 2 * p < kx or w + 2 * p < ky:
            continue
        yield dict(k='img', h=h, w=w, c=2, kx=kx, ky=ky, st=st, p=p)
    for c, f, T, B in [(1, 1, 1, 1), (3, 1, 2, 2), (1, 4, 1, 3),
                       (5, 6, 3, 1), (17, 19, 1, 2)]:
        for act in ACTS:
            yield dict(k='img', h=6, w=9, c=c, kx=3, ky=4, st=(2, 1), p=1,
                       f=f, act=act, T=T, B=B)
    for h, w in [(1, 2), (2, 2), (2, 3)] + ([(3, 3)] if th else []):
        for bits in range(2 ** (h * w)):
            for p in (0, 1):
                yield dict(k='bits', h=h, w=w, bits=bits, p=p)
    for sc in SCALES:
        for p in (0, 1, 2):
            yield dict(k='img', h=4, w=4, c=2, kx=3, ky=2, st=(1, 2), p=p,
                       sc=sc)
    for i in range(len(WRAPPED)):
        for dt in ('d', 'f'):
            for tr in (False, True):
                yield dict(k='wrap', i=i, dt=dt, tr=tr)
    for n in range(1, 4):
        for imps in itertools.product((0.0, 1.0, -2.0, 0.25), repeat=n):
            yield dict(k='loss', imps=imps)
        for vals in itertools.product((1.5, 0.0, float('nan'), float('inf'),
                                       -float('inf')), repeat=n):
            yield dict(k='lossnan', vals=[repr(v) for v in vals])


def default_kw(typ):
    return {'FullyConnected': dict(size=3, activation='tanh'),
            'Dropout': dict(drop_prob=0.3), 'DeltasScaling': dict(factor=2.),
            'Elementwise': dict(activation='tanh')}.get(typ, {})


# name, constructor call with all defaults, equivalent explicit options
WRAPPED = [
    ('FullyConnected', lambda: bl.FullyConnected(3, name='l'),
     dict(size=3, activation='rel')),
    ('FullyConnected', lambda: bl.FullyConnected(name='l'),
     dict(activation='rel')),
    ('BatchNorm', lambda: bl.BatchNorm(name='l'),
     dict(decay=0.9, epsilon=1e-5)),
    ('Convolution2D', lambda: bl.Convolution2D(2, (2, 3), name='l'),
     dict(num_filters=2, kernel_size=(2, 3), stride=(1, 1), padding=0,
          activation='rel')),
    ('Convolution2D', lambda: bl.Convolution2D(
        2, (2, 3), stride=(2, 1), padding=1, activation='tanh', name='l'),
     dict(num_filters=2, kernel_size=(2, 3), stride=(2, 1), padding=1,
          activation='tanh')),
    ('Pooling2D', lambda: bl.Pooling2D((2, 3), name='l'),
     dict(kernel_size=(2, 3), type='max', stride=(1, 1), padding=0)),
    ('Pooling2D', lambda: bl.Pooling2D((2, 3), type='avg', stride=(2, 3),
                                       padding=1, name='l'),
     dict(kernel_size=(2, 3), type='avg', stride=(2, 3), padding=1)),
    ('Dropout', lambda: bl.Dropout(name='l'), dict(drop_prob=0.5)),
    ('Dropout', lambda: bl.Dropout(0.25, name='l'), dict(drop_prob=0.25)),
    ('Elementwise', lambda: bl.Elementwise(name='l'), dict(activation='rel')),
    ('Elementwise', lambda: bl.Elementwise('el', name='l'),
     dict(activation='el')),
    ('NoOp', lambda: bl.NoOp(name='l'), {}),
    ('DeltasScaling', lambda: bl.DeltasScaling(0.5, name='l'),
     dict(factor=0.5)),
    ('L1Decay', lambda: bl.L1Decay(name='l'), {}),
    ('L2Decay', lambda: bl.L2Decay(name='l'), {}),
    ('Loss', lambda: bl.Loss(name='l'), dict(importance=1.0)),
    ('Loss', lambda: bl.Loss(0.5, name='l'), dict(importance=0.5)),
]


def forward_case(spec, T, B, ctx, tr=True, sc='one', key='c02', data=None,
                 dt='d', tol=1e-9, net=None):
    handler = NumpyHandler(np.float64 if dt == 'd' else np.float32)
    net = net or make_net(spec)
    net.set_handler(handler)
    if dt == 'f':
        tol = 2e-4
    params = generic_params(net, key)
    set_params(net, params)
    if data is None:
        data = input_data(spec, T, B, key)
        a, o = SCALES[sc]
        for k in data:
            if k in ('x', 'y', 'z'):
                data[k] = data[k] * a + o
    if dt == 'f':
        data = {k: v.astype(np.float32) for k, v in data.items()}
        params = get_params(net)
    before = {k: v.copy() for k, v in data.items()}
    net.provide_external_data(data)
    net.forward_pass(training_pass=tr)
    ctx.trace()
    for k in data:
        check(np.array_equal(data[k], before[k]), 'input data was modified')
        expect_close(net.get_input(k), data[k], 'network input ' + k)
    res = ref.evaluate(spec, lift(nested(params)),
                       {k: v[None].astype(float) for k, v in data.items()},
                       tr, None, find_order(net, spec),
                       observe_drops(net, spec))
    compare_forward(net, spec, res, tol)
    if res['losses'] and dt == 'd':
        compare_losses(net, res)
    after = get_params(net)
    for (l, p), v in params.items():
        exp = v
        if l in res['stats'] and p in res['stats'][l]:
            exp = res['stats'][l][p][0]
        expect_close(after[l, p], exp, 'parameter %s.%s after the pass' %
                     (l, p), tol)
    ctx.state(spec, T, B, tr, sc, dt)
    ctx.step(len(res['vals']))
    ctx.outcome(sorted((k, float(np.sum(v.real)))
                       for k, v in res['vals'].items()))
    return net, res


def run(case, ctx):
    k = case['k']
    T, B = case.get('T', 1), case.get('B', 2)
    if k == 'un':
        fs, typ = case['fs'], case['typ']
        name = 'u' if typ == 'BinomialCrossEntropy' else 'x'
        b = Builder(**{name: fs})
        if typ == 'BinomialCrossEntropy' and case['sc'] != 'one':
            b = Builder(bin_x=fs)       # outputs that are exactly 0 or 1
            name = 'bin_x'
        o = b.add('l', typ, O('Input', name), **case['kw'])
        b.loss('loss', o, weighted=False)
        spec = b.spec()
        forward_case(spec, T, B, ctx, case['tr'], case['sc'],
                     dt=case.get('dt', 'd'))
    elif k == 'bnseq':
        b = Builder(x=case['fs'])
        b.add('l', 'BatchNorm', O('Input', 'x'), decay=0.6)
        spec = b.spec()
        net = make_net(spec)
        params = nested(generic_params(net))
        set_params(net, generic_params(net))
        for i, tr in enumerate(case['seq']):
            data = input_data(spec, 2, 2 + i % 2, ('seq', i))
            net.provide_external_data(data)
            net.forward_pass(training_pass=tr)
            res = ref.evaluate(spec, lift(params),
                               {a: v[None] for a, v in data.items()}, tr)
            compare_forward(net, spec, res)
            if tr:
                for p, v in res['stats']['l'].items():
                    params['l'][p] = v[0]
            for p, v in params['l'].items():
                expect_close(net.get('l.parameters.' + p), v,
                             'parameter %s after passes %r' %
                             (p, case['seq'][:i + 1]))
            ctx.step()
            ctx.state(case['seq'][:i + 1], case['fs'])
        ctx.trace()
    elif k == 'drop':
        run_dropout(case, ctx)
    elif k == 'mask':
        fs = case['fs']
        ms = [[1], fs[:-1] + [1], fs][case['mode']]
        b = Builder(x=fs, m=ms)
        b.layers.append(['l', 'Mask', {}, {'default': [O('Input', 'x')],
                                           'mask': [O('Input', 'm')]}])
        forward_case(b.spec(), T, B, ctx)
    elif k == 'multi':
        fs, typ = case['fs'], case['typ']
        if typ == 'Highway':
            b = Builder(x=fs, y=fs, z=fs)
            for perm in itertools.permutations('xyz'):
                b.layers = [['l', typ, {}, {
                    n: [O('Input', p)] for n, p in zip('HTx', perm)}]]
                forward_case(b.spec(), T, B, ctx)
        else:
            fs2 = fs[:-1] + [case['w2'] or fs[-1]]
            b = Builder(x=fs, y=fs2)
            for perm in ('xy', 'yx', 'xx', 'yy'):
                b.layers = [['l', typ, {}, {
                    'inputs_1': [O('Input', perm[0])],
                    'inputs_2': [O('Input', perm[1])]}]]
                forward_case(b.spec(), T, B, ctx)
    elif k in ('img', 'bits'):
        h, w, c = case['h'], case['w'], case.get('c', 1)
        if k == 'bits':
            grid = [(kx, ky, st) for kx in (1, 2) for ky in (1, 2)
                    for st in ((1, 1), (2, 1))
                    if kx <= h + 2 * case['p']]
            data = {'x': np.array([(case['bits'] >> i) & 1
                                   for i in range(h * w)],
                                  dtype=float).reshape(1, 1, h, w, 1) - 1.0}
        else:
            grid, data = [(case['kx'], case['ky'], case['st'])], None
        for kx, ky, st in grid:
            for kind in ('conv', 'max', 'avg'):
                b = Builder(x=[h, w, c])
                if kind == 'conv':
                    if k == 'bits':
                        continue
                    b.add('l', 'Convolution2D', O('Input', 'x'),
                          num_filters=case.get('f', 2), kernel_size=[kx, ky],
                          stride=list(st), padding=case['p'],
                          activation=case.get('act', 'linear'))
                else:
                    b.add('l', 'Pooling2D', O('Input', 'x'), type=kind,
                          kernel_size=[kx, ky], stride=list(st),
                          padding=case['p'])
                forward_case(b.spec(), T, 1 if data else B, ctx, data=data,
                             sc=case.get('sc', 'one'))
    elif k == 'wrap':
        typ, make, kw = WRAPPED[case['i']]
        fs = [4, 5, 2] if '2D' in typ else [4]
        b = Builder(x=fs)
        b.add('l', typ, O('Input', 'x'), **kw)
        i = bl.Input(out_shapes={'x': ['T', 'B'] + fs})
        net = bs.Network.from_layer(i - 'x' >> make())
        forward_case(b.spec(), 2, 3, ctx, tr=case['tr'], dt=case['dt'],
                     net=net)
    elif k == 'loss':
        b = Builder(x=[2], y=[3, 2])
        for i, im in enumerate(case['imps']):
            b.loss('loss%d' % i, O('Input', 'xy'[i % 2]), im, weighted=False)
        for T, B in [(1, 1), (3, 2), (2, 5)]:
            forward_case(b.spec(), T, B, ctx)
            forward_case(b.spec(), T, B, ctx, tr=False)
    elif k == 'lossnan':
        vals = [float(v) for v in case['vals']]
        b = Builder(**{'x%d' % i: [2] for i in range(len(vals))})
        for i in range(len(vals)):
            b.loss('l%d' % i, O('Input', 'x%d' % i), 0.5, weighted=False)
        net = make_net(b.spec())
        for at in range(4):
            data = {}
            for i, v in enumerate(vals):
                data['x%d' % i] = np.full((2, 1, 2), 0.25)
                data['x%d' % i].flat[at] = v
            net.provide_external_data(data)
            net.forward_pass(training_pass=True)
            got = net.get_loss_values()
            want = {'l%d' % i: (v + 0.75) * 0.5 for i, v in enumerate(vals)}
            total = sum(want.values())
            if len(vals) == 1:
                want = {}
            want['total_loss'] = total
            check(set(got) == set(want), 'reported losses {}', sorted(got))
            for n in want:
                check(got[n] == want[n] or
                      (got[n] != got[n] and want[n] != want[n]),
                      '{} is {} instead of {}', n, got[n], want[n])
            ctx.step()
        ctx.state(case)
        ctx.trace()


def run_dropout(case, ctx):
    """Inverted dropout: 0 or x/(1-p), independent per entry and pass."""
    p, fs = case['p'], case['fs']
    b = Builder(x=fs)
    b.add('l', 'Dropout', O('Input', 'x'), drop_prob=p)
    bs.global_rnd.set_seed(1234)
    net = make_net(b.spec())
    T, B = 20, 25
    x = gen('drop', (T, B) + tuple(fs), 0.5, 1.5)
    masks = []
    for _ in range(3):
        net.provide_external_data({'x': x})
        net.forward_pass(training_pass=True)
        y = net.get('l.outputs.default')
        keep = y != 0
        expect_close(y, np.where(keep, x / (1.0 - p), 0), 'dropout output')
        masks.append(keep)
        n = keep.size
        frac = 1.0 - keep.mean()
        sd = (p * (1 - p) / n) ** 0.5
        check(abs(frac - p) <= 6 * sd + 1e-12, 'dropped {} instead of {} of '
              'the entries', frac, p)
        # entries are dropped independently along every axis
        if 0 < p < 1:
            for ax in range(keep.ndim):
                m = keep.astype(float) - (1 - p)
                c = (np.take(m, range(1, m.shape[ax]), ax) *
                     np.take(m, range(m.shape[ax] - 1), ax))
                sdc = p * (1 - p) / c.size ** 0.5
                check(abs(c.mean()) <= 6 * sdc, 'dropout masks are '
                      'correlated along axis {}', ax)
        ctx.step()
    if 0 < p < 1:
        for a, c in ((0, 1), (1, 2), (0, 2)):
            check(not np.array_equal(masks[a], masks[c]),
                  'two passes used the same dropout mask')
    net.forward_pass(training_pass=False)
    expect_close(net.get('l.outputs.default'), x, 'evaluation output')
    ctx.state(p, fs)
    ctx.trace()
