"""Convenience tools build and split exactly what was asked for."""
import itertools

import numpy as np

import brainstorm as bs
from brainstorm import initializers as ini
from brainstorm.handlers import NumpyHandler
from brainstorm.tools import (create_net_from_spec, get_in_out_layers,
                              get_network_info, shuffle_data, split)
from vmc.core import Violation, check
from vmc.nets import gen

BOUNDS = {
    'quick': 'all specifications of <=2 layers out of 45 forms (7 layer '
             'types with all activations, pool types, padding/stride orders) '
             'and of 3 layers out of 12, for a flat and an image input, each '
             'with 5 ways of writing whitespace and separators; 40 malformed '
             'specifications at every place; 3 task types x 10 in/out shapes '
             'x 16 name and mask settings x use_conv; shuffle of 1..3 '
             'arrays x N<=7 x 40 seeds; split of N<=24 x all ratios of <=4 '
             'parts from 6 weights'
             '; numbers 1 to 130 and up to 12345 in every place; '
             'specifications of 4 to 16 layers; split of up to 1001 and '
             'shuffle of up to 40 sequences',
    'thorough': 'as quick with 3 layers out of 45 forms, 4 out of 12, and '
                'split of N<=60 x ratios of <=5 parts from 7 weights',
}

ACT = {'l': 'linear', 'r': 'rel', 's': 'sigmoid', 't': 'tanh'}

# ---------------------------------------------- the language, read afresh --


def tokens():
    """(text parts, meaning); parts of a layer may be spaced out."""
    out = []
    for letter, typ, default in (('F', 'FullyConnected', 'rel'),
                                 ('R', 'Recurrent', 'tanh'),
                                 ('L', 'Lstm', 'tanh')):
        for a in ('', 'l', 'r', 's', 't'):
            n = {'': 3, 'l': 12, 'r': 1, 's': 4, 't': 2}[a]
            out.append(([letter, a, str(n)],
                        dict(type=typ, size=n,
                             activation=ACT.get(a, default))))
    out.append((['B'], dict(type='BatchNorm')))
    out.append((['D'], dict(type='Dropout', drop_prob=0.5)))
    for p in ('.2', '0.75', '0.0'):
        out.append((['D', p], dict(type='Dropout', drop_prob=float(p))))
    for a, rest in (('', ()), ('l', ('p1',)), ('r', ('s2',)),
                    ('s', ('p2', 's3')), ('t', ('s2', 'p1'))):
        for n, k in ((2, 3), (3, 1)):
            kw = dict(padding=0, stride=(1, 1))
            parts = ['C', a, str(n), ':', str(k)]
            for r in rest:
                parts += [r[0], r[1]]
                kw[{'p': 'padding', 's': 'stride'}[r[0]]] = \
                    int(r[1]) if r[0] == 'p' else (int(r[1]),) * 2
            out.append((parts, dict(type='Convolution2D', num_filters=n,
                                    kernel_size=(k, k),
                                    activation=ACT.get(a, 'rel'), **kw)))
    for a in ('', 'm', 'a'):
        for rest in ((), ('p1',), ('s2',), ('s3', 'p1'), ('p1', 's2')):
            kw = dict(padding=0, stride=(1, 1))
            parts = ['P', a, '3' if 's3' in rest else '2']
            for r in rest:
                parts += [r[0], r[1]]
                kw[{'p': 'padding', 's': 'stride'}[r[0]]] = \
                    int(r[1]) if r[0] == 'p' else (int(r[1]),) * 2
            k = int(parts[2])
            out.append((parts, dict(
                type='Pooling2D', kernel_size=(k, k),
                pool_type='avg' if a == 'a' else 'max', **kw)))
    return out


TOKENS = tokens()
SHORT = [0, 2, 5, 9, 13, 15, 16, 17, 20, 23, 29, 38]
assert len(TOKENS) == 45 and len(SHORT) == 12

STYLES = {
    'plain': lambda toks: ' '.join(''.join(t) for t in toks),
    'dense': lambda toks: ''.join(''.join(t) for t in toks),
    'wide': lambda toks: '  ' + ' \t '.join(' '.join(x for x in t if x)
                                            for t in toks) + ' \n',
    'slash': lambda toks: '\n'.join(''.join(t).replace(':', '/')
                                    for t in toks),
    'bars': lambda toks: ' '.join(bars(t) for t in toks),
}


def bars(t):
    """A separator between all arguments."""
    return t[0] + '|'.join(x for x in t[1:] if x and x != ':')


DEFAULTS = dict(
    FullyConnected=dict(activation='rel'), Recurrent=dict(activation='tanh'),
    Lstm=dict(activation='tanh'), Dropout=dict(drop_prob=0.5),
    BatchNorm=dict(), Convolution2D=dict(activation='rel', stride=(1, 1),
                                         padding=0),
    Pooling2D=dict(type='max', stride=(1, 1), padding=0))


def feasible(shape, metas):
    """Output shapes of the layers or None if the chain makes no sense."""
    out = []
    for m in metas:
        t = m['type']
        if t in ('FullyConnected', 'Recurrent', 'Lstm'):
            shape = (m['size'],)
        elif t in ('Convolution2D', 'Pooling2D'):
            if len(shape) != 3:
                return None
            h = []
            for d in (0, 1):
                room = shape[d] + 2 * m['padding'] - m['kernel_size'][d]
                if room < 0:
                    return None
                h.append(room // m['stride'][d] + 1)
            shape = (h[0], h[1],
                     m['num_filters'] if t == 'Convolution2D' else shape[2])
        out.append(shape)
    return out


def cases(tier):
    th = tier == 'thorough'
    yield dict(k='spec', toks=[])
    for i in range(len(TOKENS)):
        yield dict(k='spec', toks=[i], more=1)
    for i in SHORT:
        for j in (range(len(TOKENS)) if th else SHORT):
            yield dict(k='spec', toks=[i, j], more=1, short=not th)
    if th:
        for i in SHORT:
            for j in SHORT:
                for k in SHORT:
                    yield dict(k='spec', toks=[i, j, k], more=1, short=True)
    yield dict(k='bad')
    for task in ('classification', 'multi-label', 'regression'):
        for i in range(len(SHAPES)):
            yield dict(k='inout', task=task, shapes=i)
            yield dict(k='specshapes', task=task, shapes=i)
    yield dict(k='reject')
    yield dict(k='init')
    yield dict(k='info')
    for n in range(1, 8):
        yield dict(k='shuffle', n=n)
    for n in range(1, 61 if th else 25):
        yield dict(k='split', n=n, parts=5 if th else 4)
    for n in (33, 50, 64, 99, 100, 101, 127, 128, 129, 1000, 1001):
        yield dict(k='split', n=n, parts=3)
    for n in (20, 40):
        yield dict(k='shuffle', n=n)
    yield dict(k='numbers')
    for n in (4, 5, 6, 7, 8, 10, 12, 16):
        yield dict(k='deep', n=n)


def feat(shape):
    return ('T', 'B') + tuple(shape)


def check_norm(x):
    return tuple(x) if isinstance(x, (list, tuple)) else x


def chain_of(net, what):
    """The layers from the input to the output, checking the wiring."""
    arch = net.architecture
    inputs = [n for n, l in arch.items() if l['@type'] == 'Input']
    check(len(inputs) == 1, '{}: inputs {}', what, inputs)
    name, seen, view = inputs[0], [], 'default'
    while True:
        seen.append(name)
        if name == 'Output':
            return seen
        outs = arch[name]['@outgoing_connections']
        dest = outs.get(view, [])
        check(len(dest) == 1, '{}: {} of {} goes to {}', what, view, name,
              dest)
        name, _, into = dest[0].partition('.')
        check(into in ('', 'default'), '{}: connected to {}', what, into)
        view = 'default'
        check(len(seen) <= len(arch), '{}: a cycle', what)


def same_layer(net, name, meta, what):
    arch = net.architecture[name]
    want = dict(meta)
    typ = want.pop('type')
    check(arch['@type'] == typ, '{}: layer {} is a {} instead of {}', what,
          name, arch['@type'], typ)
    got = dict(DEFAULTS[typ])
    got.update((k, check_norm(v)) for k, v in arch.items()
               if not k.startswith('@'))
    if typ == 'Pooling2D':
        got['pool_type'] = got.pop('type')
    if 'size' in got:
        got['size'] = int(np.prod(got['size']))
    if typ == 'Convolution2D':
        if not isinstance(got['stride'], tuple):
            got['stride'] = (got['stride'],) * 2
    for k, v in want.items():
        check(got.get(k) == v, '{}: {} of {} is {} instead of {}', what, k,
              name, got.get(k), v)


def check_spec(spec, metas, in_shape, ctx, task='classification',
               out_shape=3, **kw):
    what = '%r on %r' % (spec, in_shape)
    ins = (in_shape,) if isinstance(in_shape, int) else tuple(in_shape)
    shapes = feasible(ins, metas)
    if shapes is None:
        try:
            create_net_from_spec(task, in_shape, out_shape, spec, **kw)
        except Exception:
            ctx.outcome('rejected')
            return None
        raise Violation('%s: impossible but accepted' % what)
    net = create_net_from_spec(task, in_shape, out_shape, spec, **kw)
    names = chain_of(net, what)
    check(len(names) == len(metas) + 3, '{}: layers {}', what, names)
    for n, m, s in zip(names[1:], metas, shapes):
        same_layer(net, n, m, what)
        got = net.layers[n].out_shapes['default'].feature_shape
        check(tuple(got) == s, '{}: {} has size {} instead of {}', what, n,
              got, s)
    check(names[-2] == 'Output_projection', '{}: layers {}', what, names)
    out_loss(net, task, out_shape, names, what, extra=len(names), **kw)
    check(net.output_name == 'Output.outputs.predictions',
          '{}: output_name {}', what, net.output_name)
    return net


OUT = {'classification': 'SoftmaxCE', 'multi-label': 'SigmoidCE',
       'regression': 'SquaredError'}


def out_loss(net, task, out_shape, names, what, extra=0,
             data_name='default', targets_name='targets', mask_name=None,
             use_conv=None, out='Output', proj='Output_projection'):
    arch = net.architecture
    outs = (out_shape,) if isinstance(out_shape, int) else tuple(out_shape)
    conv = len(outs) == 3 and use_conv is not False
    p = arch[proj]
    if conv:
        check(p['@type'] == 'Convolution2D' and
              p['num_filters'] == outs[-1] and
              tuple(p['kernel_size']) == (1, 1), '{}: projection {}', what, p)
        check(net.layers[proj].out_shapes['default'].feature_shape[-1] ==
              outs[-1], '{}: projection shape', what)
    else:
        check(p['@type'] == 'FullyConnected', '{}: projection {}', what, p)
        check(tuple(net.layers[proj].out_shapes['default'].feature_shape) ==
              outs, '{}: projection shape {}', what,
              net.layers[proj].out_shapes)
    check(p['activation'] == 'linear', '{}: projection {}', what, p)
    check([d.replace('.default', '') for d in
           p['@outgoing_connections']['default']] == [out],
          '{}: projection goes to {}', what, p['@outgoing_connections'])
    o = arch[out]
    check(o['@type'] == OUT[task], '{}: output is a {}', what, o['@type'])
    inp = [n for n, l in arch.items() if l['@type'] == 'Input'][0]
    io = arch[inp]['@outgoing_connections']
    check(io.get(targets_name) == [out + '.targets'],
          '{}: targets go to {}', what, io)
    tshape = outs[:-1] + (1,) if task == 'classification' else outs
    shapes = {k: tuple(v) for k, v in arch[inp]['out_shapes'].items()}
    want = {data_name, targets_name} | ({mask_name} if mask_name else set())
    check(set(shapes) == want, '{}: inputs {}', what, shapes)
    check(shapes[targets_name] == feat(tshape), '{}: targets have shape {}',
          what, shapes[targets_name])
    loss = [n for n, l in arch.items() if l['@type'] == 'Loss']
    check(len(loss) == 1, '{}: losses {}', what, loss)
    oo = o['@outgoing_connections']
    check(set(k for k, v in oo.items() if v) == {'loss'}, '{}: {}', what, oo)
    if mask_name is None:
        check([d.replace('.default', '') for d in oo['loss']] == loss,
              '{}: the loss goes to {}', what, oo)
        rest = 1
    else:
        check(shapes[mask_name] == feat((1,)), '{}: mask {}', what, shapes)
        (m,) = [n for n, l in arch.items() if l['@type'] == 'Mask']
        check([d.replace('.default', '') for d in oo['loss']] == [m],
              '{}: the loss goes to {}', what, oo)
        check(io.get(mask_name) == [m + '.mask'], '{}: mask goes to {}', what,
              io)
        check([d.replace('.default', '') for d in
               arch[m]['@outgoing_connections']['default']] == loss,
              '{}: the mask goes to {}', what,
              arch[m]['@outgoing_connections'])
        rest = 2
    if extra:
        check(len(arch) == extra + rest, '{}: layers {}', what, list(arch))


def spec(case, ctx):
    if not case['toks']:
        return check_spec('', [], 4, ctx)
    last = [()]
    if case.get('more'):
        last += [(j,) for j in (SHORT if case.get('short') else
                                range(len(TOKENS)))]
    for extra in last:
        idx = tuple(case['toks']) + extra
        toks = [TOKENS[i][0] for i in idx]
        metas = [TOKENS[i][1] for i in idx]
        texts = {}
        for s in sorted(STYLES):
            texts.setdefault(STYLES[s](toks), s)
        for text in texts:
            for shape in ((9, 8, 2), 5):
                check_spec(text, metas, shape, ctx)
                ctx.step()
        ctx.state(idx)
    ctx.trace()


def numbers(case, ctx):
    for n in list(range(1, 131)) + [199, 255, 256, 999, 1000, 1001, 1024,
                                    12345]:
        for l, typ, act in (('F', 'FullyConnected', 'rel'),
                            ('Fs', 'FullyConnected', 'sigmoid'),
                            ('R', 'Recurrent', 'tanh'),
                            ('Ll', 'Lstm', 'linear')):
            if n < 1000 or l[0] == 'F':
                check_spec('%s%d' % (l, n), [dict(
                    type=typ, size=n, activation=act)], 3, ctx)
        if n <= 256:
            check_spec('C%d:2' % n, [dict(
                type='Convolution2D', num_filters=n, kernel_size=(2, 2),
                activation='rel', padding=0, stride=(1, 1))], (3, 4, 1), ctx)
        if n <= 40:
            for typ, text, kw in (
                    ('Convolution2D', 'C2:', dict(num_filters=2,
                                                  activation='rel')),
                    ('Pooling2D', 'P', dict(pool_type='max'))):
                for k, s, p in ((n, 1, 0), (1, n, 0), (2, 1, n), (n, n, n)):
                    check_spec('%s%ds%dp%d' % (text, k, s, p), [dict(
                        kw, type=typ, kernel_size=(k, k), stride=(s, s),
                        padding=p)], (41, 42, 1), ctx)
        p = 1.0 / (n + 1)
        check_spec('D%.6f' % p, [dict(
            type='Dropout', drop_prob=float('%.6f' % p))], 3, ctx)
        ctx.step()
        ctx.state('numbers', n)
    ctx.trace()


def deep(case, ctx):
    flat = [i for i, t in enumerate(TOKENS) if '2D' not in t[1]['type']]
    for start in range(len(flat)):
        for step in (1, 5) if start % 3 == 0 else (1,):
            idx = [flat[(start + step * i) % len(flat)]
                   for i in range(case['n'])]
            check_spec(STYLES['plain']([TOKENS[i][0] for i in idx]),
                       [TOKENS[i][1] for i in idx], 4, ctx)
            ctx.step()
            ctx.state('deep', tuple(idx))
    ctx.trace()


BAD = ['Q5', 'X', 'A3', 'H', 'F', 'Fr', 'Ft', 'R', 'Rl', 'L', 'Ls', 'F.5',
       'R.5', 'L0.5', 'Fx5', 'Rm4', 'La2', 'C', 'C2', 'Cr', 'Cr2', 'C2:',
       'C.5:2', 'C2:.5', 'Cm2:3', 'C2:3q1', 'C2:3p', 'C2:3s', 'P', 'Pm', 'Pa',
       'Ps2', 'P.5', 'Pr2', 'P2r3', 'P2p', 'P2s', 'Dx', 'Dr.5', 'B5']


def bad(case, ctx):
    for b in BAD:
        for before in ('', 'C1:1 ', 'C1:1P1'):
            for after in ('', ' F3', 'D'):
                for shape in ((9, 8, 2),):
                    text = before + b + after
                    try:
                        net = create_net_from_spec('classification', shape,
                                                   3, text)
                    except Exception:
                        ctx.step()
                        ctx.state(text)
                        continue
                    raise Violation('the specification %r was accepted: %s' %
                                    (text, list(net.architecture)))
    ctx.trace()


SHAPES = [(4, 3, 'flat'), ((4,), (3,), 'flat'), ((2, 3), 1, 'flat'),
          ((5, 4, 2), 3, 'flat'), ((5, 4, 2), (5, 4, 3), 'img'),
          ((2, 2, 1), (2, 2, 1), 'img'), (6, (2, 3), 'flat2'),
          ((3, 2), (3, 2), 'flat2'), (1, 1, 'flat'), ((5, 4, 2), (1, 1, 2),
                                                     'imgfc')]


def options(kind):
    uses = {'flat': (None, False), 'img': (None, True, False),
            'flat2': (False,), 'imgfc': (False,)}[kind]
    for use in uses:
        for data in ({}, dict(data_name='images')):
            for targets in ({}, dict(targets_name='labels')):
                for mask in ({}, dict(mask_name='valid'),
                             dict(mask_name='mask')):
                    kw = dict(data, **targets)
                    kw.update(mask)
                    if use is not None:
                        kw['use_conv'] = use
                    yield kw


NAMES = [({}, 'Output', 'Output_projection'),
         (dict(outlayer_name='res'), 'res', 'res_projection'),
         (dict(projection_name='pr'), 'Output', 'pr'),
         (dict(outlayer_name='res', projection_name='pr'), 'res', 'pr')]


def inout(case, ctx):
    task = case['task']
    ins, outs, kind = SHAPES[case['shapes']]
    for kw in options(kind):
        for names, out, proj in NAMES:
            for mid in (None, 'FullyConnected', 'conv'):
                if mid == 'conv' and kind != 'img':
                    continue
                if mid == 'FullyConnected' and kind == 'img' and \
                        kw.get('use_conv') is not False:
                    continue
                what = 'get_in_out_layers(%r, %r, %r, %r, %r)' % (
                    task, ins, outs, kw, names)
                args = dict(kw, **names)
                i, o = get_in_out_layers(task, ins, outs, **args)
                src = i - kw['data_name'] if 'data_name' in kw else i
                if mid == 'FullyConnected':
                    src = src >> bs.layers.FullyConnected(3, name='mid')
                elif mid:
                    src = src >> bs.layers.Convolution2D(2, (1, 1),
                                                         name='mid')
                net = bs.Network.from_layer(src >> o)
                inp = [n for n, l in net.architecture.items()
                       if l['@type'] == 'Input'][0]
                shape = (ins,) if isinstance(ins, int) else ins
                got = tuple(net.architecture[inp]['out_shapes'][
                    kw.get('data_name', 'default')])
                check(got == feat(shape), '{}: data has shape {}', what, got)
                check(o.layer.name == proj, '{}: projection is called {}',
                      what, o.layer.name)
                out_loss(net, task, outs, None, what, out=out, proj=proj,
                         **kw)
                want = {inp, proj, out} | ({'mid'} if mid else set())
                left = set(net.architecture) - want
                check(len(left) == (2 if kw.get('mask_name') else 1),
                      '{}: unexpected layers {}', what, left)
                works(net, ins, outs, task, kw, out, what)
                ctx.step()
                ctx.state(what, mid)
    ctx.trace()


def works(net, ins, outs, task, kw, out, what):
    """The network is usable: predictions, loss and masking as asked for."""
    net.set_handler(NumpyHandler(np.float64))
    net.initialize({'default': ini.Gaussian(0.5), 'fallback': 0.3}, seed=3)
    ins = (ins,) if isinstance(ins, int) else ins
    outs = (outs,) if isinstance(outs, int) else outs
    d = {kw.get('data_name', 'default'): gen('x', (2, 3) + tuple(ins))}
    if task == 'classification':
        t = (np.arange(6 * int(np.prod(outs[:-1]))) % outs[-1]).reshape(
            (2, 3) + tuple(outs[:-1]) + (1,)).astype(float)
    elif task == 'multi-label':
        t = (gen('t', (2, 3) + tuple(outs)) > 0).astype(float)
    else:
        t = gen('t', (2, 3) + tuple(outs))
    d[kw.get('targets_name', 'targets')] = t
    mask = None
    if kw.get('mask_name'):
        mask = np.array([1., 0, 1, 1, 1, 0]).reshape(2, 3, 1)
        d[kw['mask_name']] = mask
    net.provide_external_data(d)
    net.forward_pass()
    p = net.get(out + '.outputs.predictions')
    check(p.shape == (2, 3) + tuple(outs), '{}: predictions of shape {}',
          what, p.shape)
    if task == 'classification':
        pt = np.take_along_axis(p, t.astype(int), -1)
        per = -np.log(pt)
    elif task == 'multi-label':
        per = -(t * np.log(p) + (1 - t) * np.log(1 - p))
    else:
        per = 0.5 * (p - t) ** 2
    per = per.reshape(2, 3, -1).sum(2, keepdims=True)
    if mask is not None:
        per = per * mask
    want = per.sum() / 3
    got = net.get_loss_values()['total_loss']
    check(np.allclose(got, want, rtol=1e-6), '{}: loss {} instead of {}',
          what, got, want)
    net.backward_pass()


def specshapes(case, ctx):
    task = case['task']
    ins, outs, kind = SHAPES[case['shapes']]
    for kw in options(kind):
        if 'data_name' in kw:
            continue
        for text, metas in (('', []), ('D.2', [dict(type='Dropout',
                                                    drop_prob=.2)]),
                            ('Fs4', [dict(type='FullyConnected', size=4,
                                          activation='sigmoid')]),
                            ('C3:1', [dict(
                                type='Convolution2D', num_filters=3,
                                kernel_size=(1, 1), activation='rel',
                                padding=0, stride=(1, 1))])):
            if kind == 'img' and text == 'Fs4' and \
                    kw.get('use_conv') is not False:
                continue
            net = check_spec(text, metas, ins, ctx, task, outs, **kw)
            if net is not None:
                works(net, ins, outs, task, kw, 'Output', text)
            ctx.step()
            ctx.state(text, repr(sorted(kw.items())))
    ctx.trace()


def reject(case, ctx):
    for task in ('', 'Classification', 'regression ', 'softmax', None,
                 'multilabel', 'classification,regression'):
        for f in (lambda: get_in_out_layers(task, 3, 2),
                  lambda: create_net_from_spec(task, 3, 2, 'F2')):
            try:
                f()
            except Exception:
                ctx.step()
                continue
            raise Violation('unknown task type %r was accepted' % (task,))
    for outs in ((2, 3), (1, 2, 3, 4)):
        for task in OUT:
            try:
                get_in_out_layers(task, 3, outs)
            except ValueError:
                ctx.step()
                continue
            raise Violation('output shape %r was accepted' % (outs,))
    ctx.trace()




def init(case, ctx):
    """Initializers: DenseSqrtFanInOut by activation, Gaussian for the rest;
    the network is initialized accordingly."""
    scale = {'rel': np.sqrt(12), 'tanh': np.sqrt(6),
             'sigmoid': 4 * np.sqrt(6), 'linear': 1.0}
    for i in SHORT:
        for j in SHORT + [3, 4, 8, 14, 30]:
            toks = [TOKENS[i], TOKENS[j]]
            if feasible((9, 8, 2), [t[1] for t in toks]) is None:
                continue
            text = STYLES['plain']([t[0] for t in toks])
            bs.global_rnd.set_seed(4)
            net = create_net_from_spec('classification', (9, 8, 2), 3, text)
            init = net.initializers
            for n, l in net.layers.items():
                a = getattr(l, 'activation', None)
                if a is None:
                    continue
                x = init.get(n)
                check(x['@type'] == 'DenseSqrtFanInOut' and
                      x.get('scale', 'rel') == a,
                      '{!r}: initializer of {} is {}', text, n, x)
                for v in net.buffer[n].parameters.keys():
                    w = net.get(n + '.parameters.' + v)
                    if w.ndim < 2 or v == 'timing':
                        continue
                    bound = scale[a] / np.sqrt(
                        w.shape[0] + np.prod(w.shape[1:]))
                    m = np.abs(w).max()
                    check(m <= bound * 1.0001, '{!r}: {}.{} up to {} beyond '
                          '{}', text, n, v, m, bound)
                    check(w.size < 30 or m > bound * 0.6,
                          '{!r}: {}.{} only up to {} of {}', text, n, v, m,
                          bound)
            for k in ('default', 'fallback'):
                check(init[k]['@type'] == 'Gaussian' and
                      init[k].get('mean', 0.0) == 0.0 and
                      init[k].get('std', 0.1) == 0.1,
                      '{!r}: {} initializer {}', text, k, init.get(k))
            ctx.step()
            ctx.state(text)
    ctx.trace()


def info(case, ctx):
    """The information lists every layer with its parameter shapes and
    counts."""
    for i in SHORT:
        for j in SHORT:
            toks = [TOKENS[i], TOKENS[j]]
            if feasible((9, 8, 2), [t[1] for t in toks]) is None:
                continue
            text = STYLES['plain']([t[0] for t in toks])
            net = create_net_from_spec('regression', (9, 8, 2), 3, text)
            before = net.get('parameters').copy()
            out = get_network_info(net)
            lines = out.split('\n')
            total = net.get('parameters').size
            check(lines[0].endswith(' %d' % total), '{!r}: first line {!r} '
                  'instead of {} parameters', text, lines[0], total)
            pos = 0
            for n in net.layers:
                check(n in lines[pos:], '{!r}: layer {} is missing', text, n)
                pos = lines.index(n, pos)
                end = next(k for k in range(pos, len(lines))
                           if lines[k].startswith('---'))
                part = lines[pos:end]
                count = 0
                for v in net.buffer[n].parameters.keys():
                    w = net.get(n + '.parameters.' + v)
                    count += w.size
                    check('\t%s%s' % (v, w.shape) in part,
                          '{!r}: {} {} {} missing in {}', text, n, v, w.shape,
                          part)
                num = [p for p in part
                       if p.startswith('number of parameters:')]
                check(len(num) == 1 and
                      int(num[0].split(':')[1]) == count,
                      '{!r}: {} has {} parameters, not {}', text, n, count,
                      num)
                for view in net.layers[n].out_shapes:
                    s = net.layers[n].out_shapes[view].feature_shape
                    check(any('%s%s' % (view, s) in p for p in part),
                          '{!r}: output {} of {} missing', text, view, n)
                pos = end
            check(np.array_equal(before, net.get('parameters')), 'changed')
            ctx.step()
            ctx.state(text)
    ctx.trace()


def shuffle(case, ctx):
    n = case['n']
    a = gen('a', (2, n, 3)) + 10 * np.arange(n)[None, :, None]
    b = (np.arange(2 * n).reshape(2, n, 1) % n)
    c = np.array(['s%d' % i for i in range(n)])[None, :, None]
    e = gen('e', (1, n, 2, 2)).astype(np.float32)
    keep = [x.copy() for x in (a, b, c, e)]
    perms = set()
    for args in ((a,), (a, b), (b, a, c), (a, None, b), (c, b, None),
                 (e, c, b, a)):
        for seed in list(range(40)) + [None, None]:
            kw = {} if seed is None else dict(seed=seed)
            out = shuffle_data(*args, **kw)
            check(len(out) == len(args), '{} arrays for {}', len(out),
                  len(args))
            # which sequence is where: read off the labelled arrays
            order = None
            for x, y in zip(args, out):
                if x is None:
                    check(y is None, 'None became {}', y)
                    continue
                check(y.shape == x.shape and y.dtype == x.dtype,
                      'shape {} {} became {} {}', x.shape, x.dtype, y.shape,
                      y.dtype)
                o = []
                for i in range(n):
                    j = [k for k in range(n)
                         if np.array_equal(x[:, k], y[:, i])]
                    check(len(j) == 1, 'sequence {} of the result is {} '
                          'times in the data', i, len(j))
                    o.append(j[0])
                check(sorted(o) == list(range(n)), 'shuffled order {}', o)
                check(order is None or order == o, 'arrays misaligned: {} '
                      'and {}', order, o)
                order = o
                check(not np.shares_memory(x, y), 'shares memory')
            perms.add(tuple(order))
            if seed is not None:
                again = shuffle_data(*args, seed=seed)
                check(all(p is None and q is None or np.array_equal(p, q)
                          for p, q in zip(out, again)),
                      'seed {} gave two results', seed)
            ctx.step()
        for x, y in zip((a, b, c, e), keep):
            check(np.array_equal(x, y), 'shuffling changed its input')
    check(len(perms) >= min(6, [1, 1, 2, 6][min(n, 3)]),
          'only {} orders of {} sequences', len(perms), n)
    ctx.state(n, len(perms))
    ctx.trace()


WEIGHTS = [1, 2, 3, 9, 0.5, 0.1, 0]


def splits(case, ctx):
    n = case['n']
    a = gen('a', (2, n, 3))
    b = np.arange(n).reshape(1, n, 1)
    keep = a.copy(), b.copy()
    todo = [None]
    for parts in range(1, case['parts'] + 1):
        ws = WEIGHTS if case['parts'] > 4 else WEIGHTS[:6]
        todo += itertools.product(ws, repeat=parts)
    for r in todo:
        if r is not None and sum(r) == 0:
            continue
        for args in ((a, b), (b, None)) if r is None or len(r) < 3 else \
                ((b, a),):
            for form in (tuple, list, np.array) if r and len(r) < 3 else \
                    (tuple,):
                out = split(*args) if r is None else split(*args,
                                                           ratios=form(r))
                check_split(n, r or (9, 1), args, out)
                ctx.step()
        ctx.state(n, r)
    check(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]),
          'splitting changed its input')
    ctx.trace()


def check_split(n, ratios, args, out):
    check(len(out) == len(ratios), '{} parts for ratios {}', len(out), ratios)
    total = float(sum(ratios))
    pos, acc = 0, 0.0
    for part, r in zip(out, ratios):
        acc += r
        check(len(part) == len(args), 'part of {} arrays', len(part))
        sizes = set()
        for x, y in zip(args, part):
            if x is None:
                check(y is None, 'None became {}', y)
                continue
            m = y.shape[1]
            sizes.add(m)
            check(np.array_equal(y, x[:, pos:pos + m]) and
                  y.dtype == x.dtype, 'ratios {}, N={}: the part after {} '
                  'sequences is not the next {}', ratios, n, pos, m)
        check(len(sizes) == 1, 'ratios {}, N={}: parts of different sizes '
              '{}', ratios, n, sizes)
        pos += sizes.pop()
        check(abs(pos - n * acc / total) <= 0.5 + 1e-6, 'ratios {}, N={}: a '
              'part ends at {} instead of {}', ratios, n, pos,
              n * acc / total)
    check(pos == n, 'ratios {}: {} of {} sequences in the parts', ratios, pos,
          n)


def run(case, ctx):
    bs.global_rnd.set_seed(12)
    {'spec': spec, 'bad': bad, 'inout': inout, 'reject': reject,
     'init': init, 'info': info, 'shuffle': shuffle, 'split': splits,
     'specshapes': specshapes, 'numbers': numbers,
     'deep': deep}[case['k']](case, ctx)
