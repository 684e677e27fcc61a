"""Buffer layout wires every connection and shares nothing else."""
import itertools

import numpy as np

from brainstorm.utils import NetworkValidationError
from checks.specs import Builder, O
from vmc.core import Violation, check
from vmc.nets import make_net

BOUNDS = {
    'quick': 'all connection relations (multisets of non-empty source '
             'subsets) of <=4 sources x <=3 sinks and 5 sources x 2 sinks, '
             'for 4 mixes of source kinds (network inputs, fully connected, '
             'LSTM outputs) and two naming orders; resized through 4 '
             '(T,B) sizes; every memory cell tagged; multi-dimensional '
             'features; parameter-to-loss connections; all 2-input layers; '
             'dense skip chains up to 7 layers; hubs of 5 sources with all '
             '60 chains of pairwise concatenations, 6-8 sources with the '
             'chains whose valid arrangements come last in several '
             'orders, windows of 3 and unsatisfiable cycles',
    'thorough': 'as quick with 4 sources x 4 sinks, 5 sources x 3 sinks and '
                '6 source mixes, all 360 chains of 6 and 2520 of 7 sources',
}

WIDTHS = [1, 2, 3, 2, 1, 4]
MIXES = ['IIIIII', 'IFLFIL', 'FFFFFF', 'LILIFI']
MIXES_T = MIXES + ['LLLLLL', 'ILLFFI']


def subsets(n):
    return [c for k in range(1, n + 1)
            for c in itertools.combinations(range(n), k)]


def cases(tier):
    th = tier == 'thorough'
    combos = [(n, k) for n in (1, 2, 3, 4) for k in (1, 2, 3)] + [(5, 2)]
    if th:
        combos += [(4, 4), (5, 3)]
    for n, k in combos:
        for sets in itertools.combinations_with_replacement(subsets(n), k):
            for m in (MIXES_T if th and n * k <= 12 else MIXES):
                yield dict(k='rel', n=n, sets=sets, mix=m[:n], rev=False)
            if n <= 4 and k <= 3:
                yield dict(k='rel', n=n, sets=sets, mix='IFLFIL'[:n],
                           rev=True)
    for fs in ([2], [2, 3], [2, 2, 2], [1, 3], [1, 1, 2]):
        for kinds in (1, 2, 3):
            yield dict(k='multi', fs=fs, n=kinds)
    for typ in ('FullyConnected', 'Recurrent', 'Lstm', 'BatchNorm'):
        for n in (1, 2, 3):
            yield dict(k='param', typ=typ, n=n)
    for perm in itertools.product(range(4), repeat=3):
        yield dict(k='highway', perm=perm)
    for perm in itertools.product(range(4), repeat=2):
        yield dict(k='merge', perm=perm)
    for n in range(1, 8):
        for typ in 'FLN':
            yield dict(k='dense', n=n, typ=typ)
    for c in chains(th):
        yield c


def chains(th):
    """Chains of overlapping concatenations: exactly one arrangement of the
    hub and its mirror image are valid, at every place of the search order."""
    for n in (5, 6, 7, 8):
        if n == 5 or th and n < 8:
            orders = [o for o in itertools.permutations(range(n))
                      if o[0] < o[-1]]
        else:
            mid = list(range(n // 2 - 1, n)) + list(range(n // 2 - 1))
            orders = [list(range(n)), mid, list(range(0, n, 2)) +
                      list(range(1, n, 2))[::-1],
                      [n // 2] + [i for i in range(n - 1, -1, -1)
                                  if i not in (n // 2, n // 2 - 1)] +
                      [n // 2 - 1]]
        for o in orders:
            yield dict(k='chain', n=n, sets=[sorted((a, b)) for a, b in
                                             zip(o, o[1:])], ok=True)
        for o in orders[:3]:
            yield dict(k='chain', n=n, sets=[sorted(t) for t in
                                             zip(o, o[1:], o[2:])], ok=True)
        if n < 8:
            yield dict(k='chain', n=n, ok=False, sets=[
                sorted((a, b)) for a, b in zip(o, o[1:] + o[:1])])


def feasible(n, sets):
    for perm in itertools.permutations(range(n)):
        pos = {s: i for i, s in enumerate(perm)}
        if all(max(pos[x] for x in s) - min(pos[x] for x in s) == len(s) - 1
               for s in sets):
            return True
    return False


def build(case):
    k = case['k']
    if k == 'rel':
        n = case['n']
        b = Builder(x0=[1])
        # source names in one of two orders relative to their index
        nm = [('s%d' % (n - 1 - i if case['rev'] else i)) for i in range(n)]
        srcs = []
        for i, kind in enumerate(case['mix']):
            if kind == 'I':
                srcs.append(b.extra(nm[i], [WIDTHS[i]]))
            elif kind == 'F':
                srcs.append(b.add(nm[i], 'FullyConnected', O('Input', 'x0'),
                                  size=WIDTHS[i]))
            else:
                srcs.append(b.add(nm[i], 'Lstm', O('Input', 'x0'),
                                  size=WIDTHS[i]))
        for j, s in enumerate(case['sets']):
            name = ('z%d' if not case['rev'] else 'a%d') % j
            b.add(name, 'NoOp', [srcs[x] for x in s])
        return b.spec()
    if k == 'chain':
        b = Builder(x0=[1])
        srcs = [b.add('s%d' % i, 'FullyConnected', O('Input', 'x0'),
                      size=1 + i % 2) for i in range(case['n'])]
        for j, s in enumerate(case['sets']):
            b.add('z%d' % j, 'NoOp', [srcs[x] for x in s])
        return b.spec()
    if k == 'multi':
        b = Builder(x=case['fs'], y=case['fs'], z=case['fs'])
        b.add('n', 'NoOp', [O('Input', c) for c in 'xyz'[:case['n']]])
        b.add('m', 'NoOp', O('n'))
        return b.spec()
    if k == 'param':
        b = Builder(x=[2])
        kw = {} if case['typ'] == 'BatchNorm' else dict(size=2)
        o = b.add('a', case['typ'], O('Input', 'x'), **kw)
        o = b.add('b', case['typ'], o, **kw)
        p = {'Lstm': ['Rf', 'bz', 'pi'], 'BatchNorm': ['gamma', 'beta', 'mu'],
             'Recurrent': ['R', 'bias', 'W']}.get(case['typ'],
                                                  ['W', 'bias', 'W'])
        for i in range(case['n']):
            b.layers.append(['loss%d' % i, 'Loss', {}, {
                'default': [['ab'[i % 2], 'parameters.' + p[i]]]}])
        return b.spec()
    if k in ('highway', 'merge'):
        b = Builder(x=[2], y=[2])
        outs = [O('Input', 'x'), O('Input', 'y'),
                b.add('f', 'FullyConnected', O('Input', 'x'), size=2),
                b.add('l', 'Lstm', O('Input', 'y'), size=2)]
        names = 'HTx' if k == 'highway' else ('inputs_1', 'inputs_2')
        b.layers.append(['w', 'Highway' if k == 'highway' else 'Merge', {},
                         {n: [outs[i]] for n, i in zip(names,
                                                       case['perm'])}])
        return b.spec()
    if k == 'dense':
        b = Builder(x=[2])
        srcs = [O('Input', 'x')]
        for i in range(case['n']):
            t, kw = {'F': ('FullyConnected', dict(size=2)),
                     'L': ('Lstm', dict(size=1)), 'N': ('NoOp', {})}[
                         case['typ']]
            if case['typ'] == 'N' and i > 3:
                t, kw = 'FullyConnected', dict(size=2)
            srcs.append(b.add('n%d' % i, t, list(srcs), **kw))
        return b.spec()


OWN = ('outputs', 'parameters', 'internals')
OWN_B = ('output_deltas', 'gradients')


def arrays(net, cat):
    out = []
    for l in net.layers:
        view = net.buffer[l]
        if cat in view and view[cat] is not None:
            for n in view[cat].keys():
                out.append((l, n))
    return out


def run(case, ctx):
    spec = build(case)
    if case['k'] == 'rel':
        ok = feasible(case['n'], case['sets'])
    else:
        ok = case.get('ok', True)
    try:
        net = make_net(spec)
    except NetworkValidationError as e:
        ctx.outcome('rejected')
        ctx.state(case)
        ctx.step()
        check(not ok, 'layout rejected although an arrangement exists: {}', e)
        ctx.trace()
        return
    check(ok, 'a layout was produced although no arrangement of the outputs '
          'satisfies all connections')
    h = net.handler
    for T, B in ((2, 3), (4, 1), (1, 2), (3, 3)):
        shapes = {k: tuple(v) for k, v in spec[0][2]['out_shapes'].items()}
        net.provide_external_data({k: np.zeros((T, B) + v)
                                   for k, v in shapes.items()})
        tags = {}
        nxt = [1.0]

        def tag(path):
            arr = net.get(path)
            v = np.arange(nxt[0], nxt[0] + arr.size).reshape(arr.shape)
            nxt[0] += arr.size
            h.set_from_numpy(get(net, path), v)
            tags[path] = v
        for cat in OWN + OWN_B:
            for l, n in arrays(net, cat):
                tag('%s.%s.%s' % (l, cat, n))
        for path, v in tags.items():
            ctx.step()
            check(np.array_equal(net.get(path), v),
                  'memory of {} is shared with another buffer', path)
        for l, typ, kw, ins in spec:
            for iname, srcs in ins.items():
                for cat, scat in (('inputs', {'outputs': 'outputs',
                                              'parameters': 'parameters'}),
                                  ('input_deltas',
                                   {'outputs': 'output_deltas',
                                    'parameters': 'gradients'})):
                    got = net.get('%s.%s.%s' % (l, cat, iname))
                    parts = []
                    for s, p in srcs:
                        c, n = p.split('.')
                        v = tags['%s.%s.%s' % (s, scat[c], n)]
                        if c == 'outputs':
                            v = v[:T]
                        parts.append(v)
                    match(got, parts, '%s of %s.%s' % (cat, l, iname), ctx,
                          '%s.%s.%s' % (l, cat, iname))
                    ctx.step()
        # writing an input delta reaches exactly the connected deltas
        for l, typ, kw, ins in spec:
            for iname, srcs in ins.items():
                path = '%s.input_deltas.%s' % (l, iname)
                old = net.get(path)
                h.set_from_numpy(get(net, path), -old)
                for p2, v in tags.items():
                    now = net.get(p2)
                    s, c, n = p2.split('.')
                    mine = [s, {'output_deltas': 'outputs',
                                'gradients': 'parameters'}.get(c, '-') +
                            '.' + n] in [list(q) for q in srcs]
                    exp = v.copy()
                    if mine:
                        exp = -v
                        if c == 'output_deltas':
                            exp[T:] = v[T:]
                    check(np.array_equal(now, exp), 'writing {} changed {} '
                          'wrongly', path, p2)
                h.set_from_numpy(get(net, path), old)
        for flat, cat in (('parameters', 'parameters'),
                          ('gradients', 'gradients')):
            allp = [tags['%s.%s.%s' % (l, cat, n)].ravel()
                    for l, n in arrays(net, cat)]
            allp = np.concatenate(allp) if allp else np.zeros(0)
            got = net.get(flat).ravel() if allp.size else allp
            check(got.size == allp.size and
                  np.array_equal(np.sort(got), np.sort(allp)),
                  'flat {} vector does not contain every entry exactly once',
                  flat)
        if arrays(net, 'parameters'):
            # parameters and gradients are arranged identically
            order_p = np.argsort(net.get('parameters').ravel(),
                                 kind='stable')
            order_g = np.argsort(net.get('gradients').ravel(),
                                 kind='stable')
            pt = [tags['%s.parameters.%s' % a].size
                  for a in arrays(net, 'parameters')]
            gt = [tags['%s.gradients.%s' % a].size
                  for a in arrays(net, 'gradients')]
            check(pt == gt and np.array_equal(order_p, order_g),
                  'gradients are arranged differently from the parameters')
    ctx.trace()
    ctx.state(case)
    ctx.outcome(case['k'])


def get(net, path):
    b = net.buffer
    for p in path.split('.'):
        b = b[p]
    return b


def match(got, parts, what, ctx, path):
    width = sum(p.shape[-1] for p in parts)
    if got.shape[:-1] == parts[0].shape[:-1] and got.shape[-1] == width:
        for perm in itertools.permutations(parts):
            if np.array_equal(np.concatenate(perm, -1), got):
                return
    finding = None
    if len(parts) > 1 and parts[0].ndim > 3 and \
            int(np.prod(parts[0].shape[2:-1])) > 1:
        for perm in itertools.permutations(parts):
            flat = np.concatenate([p.reshape(p.shape[:2] + (-1,))
                                   for p in perm], -1)
            if flat.size == got.size and \
                    np.array_equal(flat.reshape(got.shape), got):
                finding = 'multidim-concat'
    if finding and finding in ctx.known:
        ctx.known_hit[finding] = ctx.known_hit.get(finding, 0) + 1
        return
    raise Violation('%s is not the concatenation of the connected outputs, '
                    'each exactly once' % what, finding=finding)
