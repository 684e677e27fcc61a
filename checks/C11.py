"""Every epoch delivers each sequence exactly once, aligned."""
import itertools

import numpy as np

from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.handlers import NumpyHandler
from brainstorm.utils import IteratorValidationError
from vmc.core import Violation, check

BOUNDS = {
    'quick': 'N<=9 sequences x batch size<=N+2 x T<=4 x shuffle on/off x 3 '
             'name sets x 4 epochs; all 512 masks for T=N=3 and all 256 for '
             'T=2,N=4 (several mask values) x all batch sizes x 2 mask '
             'names; all explicit length vectors for T=3,N=3; all '
             'interleavings of two concurrent passes over 3 batches; orders '
             'of 2 to 4 batches over 300 epochs and 12 seeds'
             '; N = 10 to 257 around powers of two x 11 batch sizes, '
             'also cut to lengths',
    'thorough': 'as quick with N<=16 and all 4096 masks for T=3,N=4 and '
                'T=4,N=3',
}

NAMES = [('default',), ('default', 'targets'), ('a', 'b', 'c', 'mask_')]
FEAT = {'default': (2,), 'targets': (1,), 'a': (1,), 'b': (2, 2),
        'c': (1, 1, 3), 'mask_': (1,), 'mask': (1,), 'm2': (1,)}


def tagged(names, T, N, dtype=float):
    """Every element knows its array, time step, sequence and feature."""
    out = {}
    for i, n in enumerate(names):
        f = FEAT[n]
        size = int(np.prod(f))
        v = np.zeros((T, N, size), dtype)
        for t in range(T):
            for b in range(N):
                for k in range(size):
                    v[t, b, k] = 1 + i * 100000 + t * 10000 + b * 100 + k
        out[n] = v.reshape((T, N) + f)
    return out


def cases(tier):
    th = tier == 'thorough'
    for N in range(1, 17 if th else 10):
        for T in range(1, 5):
            for ni in range(3):
                yield dict(k='plain', N=N, T=T, ni=ni)
    for N in (10, 16, 17, 31, 32, 33, 50, 64, 65, 100, 127, 128, 129, 257):
        yield dict(k='long', N=N)
    for T, N in [(3, 3), (2, 4), (1, 5)] + ([(3, 4), (4, 3)] if th else []):
        for name in ('mask', 'm2'):
            for first in range(2 ** T):
                yield dict(k='mask', T=T, N=N, name=name, first=first)
    for a in range(4):
        yield dict(k='lens', first=a)
    for s in range(12):
        yield dict(k='orders', seed=s)
    yield dict(k='interleave')
    yield dict(k='errors')
    yield dict(k='undivided')


def check_pass(it, data, lens, bsize, epochs, shuffle, what, ctx, handler):
    N = next(iter(data.values())).shape[1]
    nb = -(-N // bsize)
    check(it.length == nb, '{}: length {} instead of {}', what, it.length, nb)
    check(set(it.data_shapes) == set(data), '{}: data names', what)
    for n in data:
        check(tuple(it.data_shapes[n]) == data[n].shape,
              '{}: shape of {}', what, n)
    keep = {k: v.copy() for k, v in data.items()}
    want = []
    for i in range(nb):
        s = slice(i * bsize, (i + 1) * bsize)
        L = max(lens[s])
        want.append({n: v[:L, s] for n, v in keep.items()})
    orders = []
    for e in range(epochs):
        got = list(it(handler=handler) if handler else it())
        check(len(got) == nb, '{}: {} batches instead of {}', what, len(got),
              nb)
        order = []
        for g in got:
            check(set(g) == set(data), '{}: names {} delivered', what,
                  sorted(g))
            hit = [i for i in range(nb) if i not in order and
                   all(g[n].shape == want[i][n].shape and
                       np.array_equal(g[n], want[i][n]) for n in data)]
            check(hit, '{}: epoch {} delivered a batch that is none of the '
                  'remaining ones: {}', what, e,
                  {n: v.tolist() for n, v in g.items()})
            order.append(hit[0])
        if not shuffle:
            check(order == list(range(nb)), '{}: order {}', what, order)
        orders.append(tuple(order))
        ctx.step()
    for n in data:
        check(np.array_equal(data[n], keep[n]), '{}: data {} was changed',
              what, n)
    return orders


def run(case, ctx):
    k = case['k']
    if k == 'plain':
        N, T = case['N'], case['T']
        names = NAMES[case['ni']]
        for bsize in range(1, N + 3):
            for shuffle in (True, False):
                for h in (None, NumpyHandler(np.float64)):
                    data = tagged(names, T, N)
                    it = Minibatches(bsize, shuffle=shuffle, **data)
                    what = 'Minibatches(%d, shuffle=%s) on %d sequences' % (
                        bsize, shuffle, N)
                    o = check_pass(it, data, [T] * N, bsize, 4, shuffle, what,
                                   ctx, h)
                    if shuffle:
                        it.rnd.set_seed(11)
                        a = check_pass(it, data, [T] * N, bsize, 3, True,
                                       what, ctx, h)
                        it.rnd.set_seed(11)
                        b = check_pass(it, data, [T] * N, bsize, 3, True,
                                       what, ctx, h)
                        check(a == b, '{}: seed does not fix the order', what)
                        other = Minibatches(bsize, shuffle=shuffle, **data)
                        other.rnd.set_seed(11)
                        b = check_pass(other, data, [T] * N, bsize, 3, True,
                                       what, ctx, h)
                        check(a == b, '{}: seed does not fix the order of '
                              'another iterator', what)
                    ctx.state(N, T, names, bsize, shuffle, h is None)
                    ctx.outcome(o if not shuffle else len(o))
        # defaults: batch size 1, shuffling
        data = tagged(names, T, N)
        it = Minibatches(**data)
        check_pass(it, data, [T] * N, 1, 2, True, 'Minibatches()', ctx, None)
        ctx.trace()
    elif k == 'long':
        N = case['N']
        for bsize in sorted({1, 2, 7, 16, 32, 64, 128, N // 2, N - 1, N,
                             N + 1}):
            for shuffle in (True, False):
                data = tagged(NAMES[0], 2, N)
                it = Minibatches(bsize, shuffle=shuffle, **data)
                check_pass(it, data, [2] * N, bsize, 2, shuffle,
                           'Minibatches(%d) on %d sequences' % (bsize, N),
                           ctx, None)
                lens = [1 + (i // 3 + i % 2) % 3 for i in range(N)]
                data = tagged(NAMES[0], 3, N)
                it = Minibatches(bsize, shuffle=shuffle,
                                 cut_according_to=lens, **data)
                check_pass(it, data, lens, bsize, 2, shuffle,
                           'Minibatches(%d) on %d sequences cut to lengths' %
                           (bsize, N), ctx, None)
                ctx.state('long', N, bsize, shuffle)
        ctx.trace()
    elif k == 'mask':
        T, N, name = case['T'], case['N'], case['name']
        col0 = [case['first'] >> t & 1 for t in range(T)]
        for bits in itertools.product((0, 1), repeat=T * (N - 1)):
            m = np.array([col0] + [bits[i * T:(i + 1) * T]
                                   for i in range(N - 1)]).T
            val = m * np.array([1.0, 0.5, -1.0, 7.0])[:T, None]
            data = tagged(('default', 'targets'), T, N)
            data[name] = val.reshape(T, N, 1)
            lens = [max([t + 1 for t in range(T) if m[t, b]] or [0])
                    for b in range(N)]
            for bsize in range(1, N + 2):
                if name == 'mask':
                    it = Minibatches(bsize, False, **data)
                    use = lens
                else:
                    it = Minibatches(bsize, False, cut_according_to='m2',
                                     **data)
                    use = lens
                check_pass(it, data, use, bsize, 1, False,
                           'cut according to %s=%s' % (name, m.tolist()),
                           ctx, None)
            if name == 'm2':
                # not the mask unless asked for
                for cut in (None, 'mask', 'nosuch'):
                    it = Minibatches(2, False, cut_according_to=cut, **data)
                    check_pass(it, data, [T] * N, 2, 1, False,
                               'cut_according_to=%r' % cut, ctx, None)
            ctx.state(T, N, name, m.tobytes())
            ctx.outcome(lens)
        ctx.trace()
    elif k == 'lens':
        for rest in itertools.product(range(4), repeat=2):
            lens = (case['first'],) + rest
            for form in (list, np.array):
                for bsize in (1, 2, 3):
                    data = tagged(('default', 'targets'), 3, 3)
                    it = Minibatches(bsize, True, form(lens), **data)
                    check_pass(it, data, list(lens), bsize, 2, True,
                               'lengths %r' % (lens,), ctx, None)
            ctx.state(lens)
        ctx.trace()
    elif k == 'orders':
        for nb in (2, 3, 4):
            data = tagged(('default',), 1, nb * 2)
            it = Minibatches(2, True, **data)
            it.rnd.set_seed(case['seed'])
            o = check_pass(it, data, [1] * nb * 2, 2, 300, True, 'shuffled',
                           ctx, None)
            seen = set(o)
            full = set(itertools.permutations(range(nb)))
            check(seen == full, 'orders that never occur in 300 epochs: {}',
                  sorted(full - seen)[:5])
            check(any(a != b for a, b in zip(o, o[1:])), 'every epoch has '
                  'the same order')
            ctx.state(nb, case['seed'])
            ctx.outcome(o[:5])
        ctx.trace()
    elif k == 'interleave':
        for sched in set(itertools.permutations('aaabbb')):
            for shuffle in (False, True):
                data = tagged(('default', 'targets'), 2, 5)
                it = Minibatches(2, shuffle, **data)
                gens = {'a': it(), 'b': it()}
                got = {'a': [], 'b': []}
                for x in sched:
                    got[x].append(next(gens[x]))
                for x in 'ab':
                    check(next(gens[x], None) is None, 'too many batches')
                    ids = sorted(int(g['default'][0, b, 0]) // 100 % 100
                                 for g in got[x]
                                 for b in range(g['default'].shape[1]))
                    check(ids == list(range(5)), 'interleaved passes deliver '
                          'sequences {}', ids)
                    for g in got[x]:
                        check(np.array_equal(
                            g['default'][..., 0] + 100000,
                            g['targets'][..., 0]), 'misaligned arrays')
                ctx.step()
                ctx.state(sched, shuffle)
        ctx.trace()
    elif k == 'undivided':
        for N in range(1, 6):
            for T in range(1, 4):
                for names in NAMES:
                    data = tagged(names, T, N)
                    keep = {n: v.copy() for n, v in data.items()}
                    it = Undivided(**data)
                    check(it.length == 1, 'length of Undivided')
                    for e in range(3):
                        for h in (None, NumpyHandler(np.float64)):
                            got = list(it(handler=h) if h else it())
                            check(len(got) == 1 and set(got[0]) == set(data),
                                  'Undivided delivers {} batches', len(got))
                            for n in data:
                                check(np.array_equal(got[0][n], keep[n]),
                                      'Undivided delivers changed {}', n)
                            # what the consumer does to the dictionary is
                            # its own business
                            got[0].clear()
                            ctx.step()
                    ctx.state(N, T, names)
        ctx.trace()
    else:
        ok = np.zeros((3, 4, 2))
        bad = [dict(a=ok, b=np.zeros((3, 5, 2))),
               dict(a=ok, b=np.zeros((2, 4, 2))),
               dict(a=np.zeros((3, 4))), dict(a=np.zeros(3)),
               dict(a=[[[1.0]]]), dict(a=ok, b=np.zeros((4, 3, 2)))]
        for d in bad:
            for cls in (Undivided, Minibatches):
                try:
                    cls(**d)
                except IteratorValidationError:
                    ctx.step()
                    continue
                raise Violation('%s accepted arrays of shapes %s' % (
                    cls.__name__, [np.shape(v) for v in d.values()]))
        for lens in ([1, 2], [1, 2, 3, 3, 3], []):
            try:
                Minibatches(1, True, lens, a=ok)
            except AssertionError:
                ctx.step()
                continue
            raise Violation('%d lengths for 4 sequences accepted' % len(lens))
        ctx.trace()
        ctx.state('errors')
