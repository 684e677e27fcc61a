"""Data and buffers are addressed by name exactly, mismatches rejected."""
import itertools

import numpy as np

import brainstorm as bs
from brainstorm.handlers import DebugHandler, NumpyHandler
from checks.specs import Builder, O
from vmc.core import Violation, check
from vmc.nets import gen, generic_params, make_net, set_params

BOUNDS = {
    'quick': '1-4 network inputs of 5 feature shapes; all orders of the data '
             'dictionary x extra names at every place x 6 dtypes x 6 memory '
             'layouts x 4 handlers (float64, float32, debug; also arrays of '
             'the handler) x all sequences of 2 of 5 sizes; all subsets of '
             'the inputs with and without all_inputs after every size; every single wrong '
             'extent or rank of every input, of every parameter and of '
             'every context entry followed by a correct run; every access '
             'path to every buffer of 9 networks through 3 sizes and a '
             'handler switch, all unknown names of one position; 14 layer '
             'and input names that coincide with methods or keywords',
    'thorough': 'as quick with all sequences of 3 sizes',
}

SHAPES = [[2], [1], [2, 3], [1, 1, 2], [3]]
SIZES = [(1, 1), (2, 3), (3, 2), (1, 3), (3, 1)]
DTYPES = ['float64', 'float32', 'int64', 'uint8', 'bool', 'float16']
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'readonly', 'transposed']
HANDLERS = ['f64', 'f32', 'debug', 'debug32']
NAMES = ['items', 'keys', 'values', 'index', 'count', 'append', 'adjust',
         '_asdict', 'inputs', 'outputs', 'internals', 'class', 'handler',
         'input_deltas', 'Input2', '_keys', '_full_buffer', '_buffer_names']


def handler(k):
    h = NumpyHandler(np.float32 if k in ('f32', 'debug32') else np.float64)
    return DebugHandler(h) if k.startswith('debug') else h


def cases(tier):
    th = tier == 'thorough'
    for n in (1, 2, 3, 4):
        for rev in (False, True):
            for h in HANDLERS:
                for d in DTYPES:
                    yield dict(k='data', n=n, rev=rev, h=h, d=d,
                               depth=3 if th else 2)
            yield dict(k='subset', n=n, rev=rev)
            for h in HANDLERS:
                yield dict(k='wrong', n=n, rev=rev, h=h)
    for i in range(len(nets())):
        for h in ('f64', 'debug'):
            yield dict(k='paths', i=i, h=h)
            yield dict(k='alias', i=i, h=h)
            yield dict(k='wrongctx', i=i, h=h)
    for n in NAMES:
        for what in ('layer', 'input', 'both'):
            yield dict(k='names', name=n, what=what)
    for n in ('parameters', 'gradients', 'default', 'fallback', '', '1a',
              'a b', 'a.b', 'a-b'):
        yield dict(k='badname', name=n)


def spec_for(n, rev):
    names = ['x%d' % (n - 1 - i if rev else i) for i in range(n)]
    b = Builder(**{names[i]: SHAPES[i] for i in range(n)})
    for i in range(n):
        b.add('n%d' % i, 'NoOp', O('Input', names[i]))
    return b.spec(), names


def values(key, shape, dt):
    if dt == 'bool':
        return gen(key, shape) > 0
    if dt in ('int64', 'uint8'):
        return np.floor(gen(key, shape, 0, 250)).astype(dt)
    return gen(key, shape, -3, 3).astype(dt)


def arrange(v, layout):
    if layout == 'C':
        return np.ascontiguousarray(v).copy()
    if layout == 'F':
        return v.copy(order='F')
    if layout == 'strided':
        big = np.ones((v.shape[0] * 2, v.shape[1] * 3) + v.shape[2:],
                      dtype=v.dtype)
        big[::2, 1::3] = v
        return big[::2, 1::3]
    if layout == 'reversed':
        return v[::-1, ::-1].copy()[::-1, ::-1]
    if layout == 'transposed':
        return v.transpose(1, 0, *range(2, v.ndim)).copy().transpose(
            1, 0, *range(2, v.ndim))
    v = v.copy()
    v.flags.writeable = False
    return v


def expect_data(net, data, names, ctx):
    for i, x in enumerate(names):
        want = data[x].astype(net.handler.dtype)
        got = net.get_input(x)
        check(type(got) is np.ndarray and got.dtype == net.handler.dtype,
              'get_input returned {}', type(got))
        check(got.shape == want.shape and np.array_equal(got, want),
              'input {} is {}, provided was {}', x, got, want)
        check(np.array_equal(net.get('Input.outputs.' + x), want),
              'get and get_input differ')
    net.forward_pass()
    for i, x in enumerate(names):
        want = data[x].astype(net.handler.dtype)
        got = net.get('n%d.outputs.default' % i)
        check(got.shape == want.shape and np.array_equal(got, want),
              'the network computed with {} for {} instead of {}', got, x,
              want)
        check(np.array_equal(net.get_input(x), want), 'forward changed the '
              'data')
    ctx.step()


def run_data(case, ctx):
    n = case['n']
    spec, names = spec_for(n, case['rev'])
    net = make_net(spec, handler=handler(case['h']))
    for si, sizes in enumerate(itertools.product(SIZES,
                                                 repeat=case['depth'])):
        layouts = LAYOUTS if n < 4 else LAYOUTS[si % 6:][:1]
        for li, layout in enumerate(layouts):
            for j, (T, B) in enumerate(sizes):
                raw = {x: values((x, T, B, j), [T, B] + SHAPES[i], case['d'])
                       for i, x in enumerate(names)}
                # the orders are spread over the histories for n = 4
                perms = list(itertools.permutations(names))
                if n == 4:
                    perms = perms[si % 24::24]
                elif n == 3:
                    perms = perms[(si + li) % 3::3]
                for p in perms:
                    data = {x: arrange(raw[x], LAYOUTS[
                        (LAYOUTS.index(layout) + k) % 6])
                        for k, x in enumerate(p)}
                    keep = {x: v.copy() for x, v in data.items()}
                    net.provide_external_data(data)
                    expect_data(net, raw, names, ctx)
                    for x in names:
                        check(np.array_equal(data[x], keep[x]) and
                              data[x].dtype == keep[x].dtype,
                              'the data of the user were changed')
                        # later changes of the user's arrays have no effect
                        if data[x].flags.writeable:
                            data[x][...] = 7
                    for i, x in enumerate(names):
                        check(np.array_equal(
                            net.get_input(x),
                            raw[x].astype(net.handler.dtype)),
                            'the network uses the memory of the user')
        ctx.state(case['n'], case['rev'], case['h'], case['d'], sizes)
    # data given as arrays of the handler
    for T, B in SIZES:
        raw = {x: values((x, T, B, 'h'), [T, B] + SHAPES[i], case['d'])
               for i, x in enumerate(names)}
        dev = {x: net.handler.create_from_numpy(v) for x, v in raw.items()}
        net.provide_external_data(dev)
        expect_data(net, raw, names, ctx)
        for x in names:
            check(np.array_equal(net.handler.get_numpy_copy(dev[x]), raw[x]),
                  'handler arrays of the user were changed')
            net.handler.fill(dev[x], 1)
            check(np.array_equal(net.get_input(x),
                                 raw[x].astype(net.handler.dtype)),
                  'the network uses the memory of the user')
    # superfluous entries
    for at in range(n + 1):
        T, B = SIZES[at]
        raw = {x: values((x, at), [T, B] + SHAPES[i], case['d'])
               for i, x in enumerate(names)}
        items = list(raw.items())
        items.insert(at, ('other', values('o', [T, B, 5], case['d'])))
        net.provide_external_data(dict(items))
        expect_data(net, raw, names, ctx)
    ctx.trace()


def run_subset(case, ctx):
    spec, names = spec_for(case['n'], case['rev'])
    for k in range(1, case['n'] + 1):
        for sub in itertools.permutations(names, k):
            for T, B in SIZES[1:]:
                net = make_net(spec)
                full = {x: values((x, 0), [2, 2] + SHAPES[i], 'float64')
                        for i, x in enumerate(names)}
                net.provide_external_data(full)
                raw = {x: values((x, 1), [T, B] + SHAPES[names.index(x)],
                                 'float64') for x in sub}
                if k < case['n']:
                    try:
                        net.provide_external_data(dict(raw))
                    except Exception:
                        ctx.outcome('missing rejected')
                    else:
                        raise Violation('data without %s were accepted' %
                                        (set(names) - set(sub)))
                net.provide_external_data(dict(raw), all_inputs=False)
                for x in sub:
                    check(np.array_equal(net.get_input(x), raw[x]),
                          'input {} was not set', x)
                for x in names:
                    check(net.get_input(x).shape[:2] == (T, B),
                          'input {} has the wrong size', x)
                net.forward_pass()
                for i, x in enumerate(names):
                    if x in sub:
                        check(np.array_equal(
                            net.get('n%d.outputs.default' % i), raw[x]),
                            'wrong result for {}', x)
                net.provide_external_data(full)
                expect_data(net, full, names, ctx)
                ctx.state(case['n'], case['rev'], sub, T, B)
            # nothing but partial data, after each of the other sizes
            net = make_net(spec)
            for (T0, B0), (T, B) in itertools.product(SIZES, repeat=2):
                for m, (t, b) in enumerate(((T0, B0), (T, B))):
                    raw = {x: values((x, m), [t, b] + SHAPES[names.index(x)],
                                     'float64') for x in sub}
                    net.provide_external_data(dict(raw), all_inputs=False)
                    for x in names:
                        got = net.get_input(x)
                        check(got.shape[:2] == (t, b), 'partial data of size '
                              '{} after {}: input {} has the size {}', (t, b),
                              (T0, B0) if m else None, x, got.shape[:2])
                        check(x not in sub or np.array_equal(got, raw[x]),
                              'input {} was not set', x)
                    net.forward_pass()
                ctx.state(case['n'], case['rev'], sub, T0, B0, T, B)
    ctx.trace()


def wrong_shapes(shape):
    shape = tuple(shape)
    out = set()
    for i in range(len(shape)):
        for d in (shape[i] - 1, shape[i] + 1, 1, 2 * shape[i]):
            if d >= 0:
                out.add(shape[:i] + (d,) + shape[i + 1:])
    for i in range(len(shape) + 1):
        out.add(shape[:i] + (1,) + shape[i:])
    for i in range(len(shape)):
        if len(shape) > 1:
            out.add(shape[:i] + shape[i + 1:])
    for p in itertools.permutations(range(len(shape))):
        out.add(tuple(shape[i] for i in p))
    out.add((int(np.prod(shape)),))
    out.discard(shape)
    return sorted(out)


def run_wrong(case, ctx):
    n = case['n']
    spec, names = spec_for(n, case['rev'])
    net = make_net(spec, handler=handler(case['h']))
    for T, B in SIZES[1:]:
        good = {x: values((x, T), [T, B] + SHAPES[i], 'float64')
                for i, x in enumerate(names)}
        for i, x in enumerate(names):
            for shape in wrong_shapes([T, B] + SHAPES[i]):
                if n == 1 and shape[2:] == tuple(SHAPES[i]):
                    continue        # just another size
                for first in (True, False):
                    order = [y for y in names if y != x]
                    order.insert(0 if first else len(order), x)
                    for dev in (False, True):
                        data = {y: good[y] if y != x else
                                values('w', shape, 'float64') for y in order}
                        if dev:
                            data = {y: net.handler.create_from_numpy(v)
                                    for y, v in data.items()}
                        try:
                            net.provide_external_data(data)
                        except Exception:
                            ctx.outcome('wrong rejected')
                        else:
                            raise Violation(
                                'data of shape %s were accepted for input %s '
                                'of shape %s' % (shape, x, [T, B] +
                                                 SHAPES[i]))
                        ctx.step()
                net.provide_external_data(good)
                expect_data(net, good, names, ctx)
        ctx.state(case['n'], case['rev'], case['h'], T, B)
    ctx.trace()


# ------------------------------------------------------------ networks --

def nets():
    out = []
    for typ, kw in (('FullyConnected', dict(size=2)), ('Recurrent',
                    dict(size=2)), ('Lstm', dict(size=2)),
                    ('Clockwork', dict(size=2)), ('ClockworkLstm',
                    dict(size=2)), ('BatchNorm', {})):
        b = Builder(x=[2])
        o = b.add('b', typ, O('Input', 'x'), **kw)
        o = b.add('a', 'FullyConnected', [O('Input', 'x'), o], size=3)
        b.loss('c', o)
        out.append(b.spec())
    b = Builder(x=[3, 3, 1])
    o = b.add('conv', 'Convolution2D', O('Input', 'x'), num_filters=2,
              kernel_size=[2, 2])
    o = b.add('pool', 'Pooling2D', o, type='max', kernel_size=[2, 2])
    b.loss('l', o)
    out.append(b.spec())
    b = Builder(y=[2], x=[2])
    o = b.add('r', 'Lstm', O('Input', 'x'), size=2)
    p = b.add('q', 'Recurrent', O('Input', 'y'), size=2)
    b.loss('l', b.add('s', 'FullyConnected', [o, p], size=2), weighted=False)
    b.loss('m', p, weighted=False)
    out.append(b.spec())
    b = Builder(x=[2])
    o = b.add('r', 'FullyConnected', O('Input', 'x'), size=2)
    b.add('s', 'SoftmaxCE', o)
    out.append(b.spec())
    return out


def data_for(spec, T, B, key=0):
    return {k: np.abs(values((k, T, B, key), [T, B] + list(v), 'float64')) *
            0 if k.startswith('cls') or 'targets' in k
            else values((k, T, B, key), [T, B] + list(v), 'float64')
            for k, v in spec[0][2]['out_shapes'].items()}


def raw(h, a):
    return a.array if isinstance(h, DebugHandler) else a


def walk(view, path=()):
    for n in view.keys():
        v = view[n]
        yield path + (n,), v
        if hasattr(v, 'keys'):
            for r in walk(v, path + (n,)):
                yield r


def same(h, a, b):
    a, b = raw(h, a), raw(h, b)
    return a.shape == b.shape and a.dtype == b.dtype and \
        a.__array_interface__['data'][0] == b.__array_interface__['data'][0] \
        and a.strides == b.strides


def groupings(path):
    """All ways of joining neighbouring names with dots."""
    for cuts in itertools.product((False, True), repeat=len(path) - 1):
        parts = [path[0]]
        for c, p in zip(cuts, path[1:]):
            if c:
                parts.append(p)
            else:
                parts[-1] += '.' + p
        yield parts


def run_paths(case, ctx):
    spec = nets()[case['i']]
    net = make_net(spec, handler=handler(case['h']))
    for T, B in [(1, 1), (3, 2), (2, 2), (0, 0), (2, 3)]:
        if not T:
            net.set_handler(handler(case['h']))
            check_paths(net, ctx)
            continue
        net.provide_external_data(data_for(spec, T, B))
        check_paths(net, ctx)
        ctx.state(case['i'], case['h'], T, B)
    ctx.trace()


def check_paths(net, ctx):
    h = net.handler
    cats = {'inputs', 'outputs', 'input_deltas', 'output_deltas',
            'parameters', 'gradients', 'internals'}
    check(set(net.buffer.keys()) ==
          set(net.layers) | {'parameters', 'gradients'},
          'the buffer has the entries {}', sorted(net.buffer.keys()))
    stamp = 0
    for path, v in list(walk(net.buffer)):
        leaf = not hasattr(v, 'keys')
        if len(path) == 2:
            check(path[1] in cats, 'unknown buffer category {}', path[1])
        objs = []
        for parts in groupings(path):
            b = net.buffer
            for p in parts:
                b = b[p]
            objs.append(b)
            ctx.step()
        b = net.buffer
        for p in path:
            b = getattr(b, p)
        objs.append(b)
        b = net.buffer
        for p in path:
            check(p in b, '{} is not in the buffer', p)
            check(p + '_' not in b, '{} is in the buffer', p + '_')
            names = list(b.keys())
            check(len(b) == len(names) == len(set(names)) and
                  list(dict(b.items())) == names, 'keys, items and length '
                  'do not belong together')
            i = names.index(p)
            check(b[i] is list(b.values())[i] and list(b)[i] is b[i],
                  'the entries of {} are listed in different orders', path)
            b = b[i]
        objs.append(b)
        for o in objs:
            if leaf:
                check(same(h, o, v), 'paths to {} lead to different memory',
                      path)
            else:
                check(o is v, 'paths to {} lead to different views', path)
        dotted = '.'.join(path)
        if leaf:
            stamp += 1
            a = raw(h, v)
            old = a.copy()
            a[...] = stamp
            got = net.get(dotted)
            check(type(got) is np.ndarray and got.shape == a.shape and
                  np.all(got == stamp), 'get({}) does not return the buffer',
                  dotted)
            got[...] = -1
            check(np.all(a == stamp), 'get({}) is not a copy', dotted)
            a[...] = old
        else:
            fails(KeyError, net.get, dotted, 'a view')
        for bad in (dotted + '_', dotted + '.', dotted + '.nope',
                    '.' + dotted, dotted.replace('.', '..'),
                    dotted.upper() + 'X', ' ' + dotted, dotted + ' ',
                    dotted[:-1] + chr(ord(dotted[-1]) + 1) + 'q'):
            if bad != dotted:
                fails(KeyError if not (leaf and bad.startswith(dotted + '.'))
                      else Exception, net.get, bad, 'an unknown path')
    fails(KeyError, net.get_input, 'nope', 'an unknown input')


def fails(exc, f, arg, what):
    try:
        f(arg)
    except exc:
        return
    except Exception as e:
        raise Violation('%s(%r): %r for %s' % (f.__name__, arg, e, what))
    raise Violation('%s(%r) returned something for %s' % (f.__name__, arg,
                                                          what))


def run_alias(case, ctx):
    """Copies handed out and arrays handed in are never used afterwards."""
    spec = nets()[case['i']]
    net = make_net(spec, handler=handler(case['h']))
    h = net.handler
    set_params(net, generic_params(net, 'c23'))
    d = data_for(spec, 2, 2)
    net.provide_external_data(d)
    net.forward_pass(training_pass=True)
    net.backward_pass()
    before = {p: net.get('.'.join(p)) for p, v in walk(net.buffer)
              if not hasattr(v, 'keys')}
    for p in before:
        net.get('.'.join(p))[...] = 99
    for x in spec[0][2]['out_shapes']:
        net.get_input(x)[...] = 99
    c = net.get_context()
    keep = [None if e is None else h.get_numpy_copy(e) for e in c]
    for e in net.get_context():
        if e is not None:
            h.fill(e, 99)
    losses = net.get_loss_values()
    for k in list(net.get_loss_values()):
        losses[k] = 99
    for p, v in before.items():
        check(np.array_equal(net.get('.'.join(p)), v, equal_nan=True),
              'changing a copy changed {}', p)
        ctx.step()
    # running on does not change a context handed out, nor one handed in
    for T in (2, 1, 3):
        net.provide_external_data(data_for(spec, T, 2, 1))
        net.forward_pass(training_pass=True, context=c)
        net.backward_pass()
        for a, b in zip(c, keep):
            check(a is None and b is None or
                  np.array_equal(h.get_numpy_copy(a), b),
                  'a context was changed by a later pass')
    ctx.state(case['i'], case['h'])
    ctx.trace()


def run_wrongctx(case, ctx):
    spec = nets()[case['i']]
    net = make_net(spec, handler=handler(case['h']))
    h = net.handler
    set_params(net, generic_params(net, 'c23'))
    for p, v in list(walk(net.buffer)):
        if p[1:2] == ('parameters',) and len(p) == 3:
            for shape in wrong_shapes(raw(h, v).shape):
                try:
                    h.set_from_numpy(v, np.ones(shape))
                except Exception:
                    ctx.outcome('wrong rejected')
                else:
                    raise Violation('values of shape %s were accepted for %s'
                                    % (shape, p))
    contexts = {}
    for B in (1, 2, 3):
        net.provide_external_data(data_for(spec, 2, B))
        net.forward_pass()
        contexts[B] = net.get_context()
    ref = {}
    for B in (1, 2, 3):
        net.provide_external_data(data_for(spec, 2, B, 1))
        net.forward_pass(context=contexts[B])
        ref[B] = outputs(net)
    if all(c is None for c in contexts[1]):
        ctx.trace()
        return
    for B, C in itertools.permutations((1, 2, 3), 2):
        net.provide_external_data(data_for(spec, 2, B, 1))
        fails_ctx(net, contexts[C], 'of %d sequences for %d' % (C, B))
        for i, e in enumerate(contexts[B]):
            if e is None:
                continue
            for shape in wrong_shapes(h.get_numpy_copy(e).shape):
                bad = list(contexts[B])
                bad[i] = h.zeros(shape)
                fails_ctx(net, bad, 'of shape %s' % (shape,))
                ctx.step()
        net.forward_pass(context=contexts[B])
        got = outputs(net)
        for k in got:
            check(np.array_equal(got[k], ref[B][k]),
                  'a rejected context changed the later results')
        ctx.state(case['i'], case['h'], B, C)
    ctx.trace()


def outputs(net):
    return {l: net.get('%s.outputs.%s' % (l, o)) for l in net.layers
            for o in net.buffer[l].outputs.keys()}


def fails_ctx(net, c, what):
    try:
        net.forward_pass(context=c)
    except Exception:
        return
    raise Violation('a context %s was accepted' % what)


# -------------------------------------------------------------- names --

def run_names(case, ctx):
    name = case['name']
    x = name if case['what'] != 'layer' else 'x'
    l = name if case['what'] != 'input' else 'l'
    res = []
    for xx, ll in ((x, l), ('x', 'l')):
        b = Builder(**{xx: [2]})
        o = b.add(ll, 'Recurrent', O('Input', xx), size=2)
        o = b.add('zz', 'FullyConnected', o, size=2)
        b.loss('loss', o, weighted=False)
        net = make_net(b.spec())
        vals = generic_params(make_net(b.spec()), 'n')
        net.initialize({ll: gen('w', [2, 2])[0, 0], 'zz': 0.5})
        set_params(net, {(k if k != ll else ll, p):
                         gen((p, k == ll), v.shape) for (k, p), v in
                         vals.items()})
        net.set_gradient_modifiers({ll: bs.value_modifiers.ClipValues(
            -0.01, 0.01)})
        for T, B in ((1, 2), (3, 1), (2, 2)):
            data = data_for(b.spec(), T, B)
            data = {k: v for k, v in data.items() if k != xx}
            data[xx] = gen(('d', T, B), [T, B, 2])
            net.provide_external_data(data)
            net.forward_pass(training_pass=True)
            net.backward_pass()
            res.append([net.get(ll + '.outputs.default'),
                        net.get('zz.outputs.default'),
                        net.get_input(xx),
                        net.get('Input.output_deltas.' + xx),
                        net.get(ll + '.gradients.W'),
                        net.get('zz.gradients.W'),
                        np.sort(net.get('parameters').ravel()),
                        np.sort(net.get('gradients').ravel()),
                        np.array(list(net.get_loss_values().values()))])
            for v in (net.buffer[ll], net.buffer['Input']['outputs']):
                check(len(list(v.items())) == len(v), 'items is broken')
            ctx.step()
    for a, b in zip(res[:3], res[3:]):
        for u, v in zip(a, b):
            check(u.shape == v.shape and np.allclose(u, v, atol=1e-12),
                  'the name {} changes the results', name)
    ctx.state(name, case['what'])
    ctx.trace()


def run_badname(case, ctx):
    from brainstorm.utils import ValidationError
    b = Builder(x=[2])
    b.add(case['name'], 'NoOp', O('Input', 'x'))
    try:
        net = make_net(b.spec())
    except ValidationError:
        ctx.outcome('name rejected')
    else:
        raise Violation('a layer called %r was accepted' % case['name'])
    ctx.state(case['name'])
    ctx.trace()


def run(case, ctx):
    globals()['run_' + case['k']](case, ctx)
