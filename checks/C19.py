"""Handler operations compute their definition and write only out."""
import itertools
import math

import numpy as np

from brainstorm.handlers import DebugHandler, NumpyHandler
from vmc.core import Violation, check

BOUNDS = {
    'quick': '45 operations x float32/float64 x contiguous/strided operands '
             'x exact aliasing of the output with every operand x shapes of '
             '1-4 dimensions with extents 0..3 x all pairs of 15 values '
             '(tiny, huge, signed zero, NaN); all matrix products with '
             'extents 1..3 and both transpositions; sums and broadcasts over '
             'every axis of every shape; pooling / convolution forward and '
             'backward on all images <=4x4 x kernels <=3x3 x strides 1..2 x '
             'padding 0..2; debug handler: same results, and rejection of '
             'every single wrong operand of every operation'
             '; every operation on every length 1 to 140 and around 200,'
             ' 256, 512, 1000, 1024, 4096 of every dimension',
    'thorough': 'as quick with extents 0..4 for products, images <=6x6 and '
                'strides 1..3',
}

VALS = (-1e30, -1000.0, -40.0, -1.5, -1.0, -1e-3, -0.0, 0.0, 1e-3, 0.5, 1.0,
        2.0, 40.0, 1000.0, 1e30)
NAN = float('nan')


def cases(tier):
    th = tier == 'thorough'
    for dt in ('float64', 'float32'):
        for dbg in (False, True):
            for name in sorted(ELEM):
                yield dict(k='elem', op=name, dt=dt, dbg=dbg)
            for name in ('add_mv', 'subtract_mv', 'mult_mv', 'divide_mv',
                         'mult_add_mv'):
                yield dict(k='mv', op=name, dt=dt, dbg=dbg)
            for m in range(1, 5 if th else 4):
                yield dict(k='dot', m=m, dt=dt, dbg=dbg,
                           n=4 if th else 3)
            for k in ('sum', 'broadcast', 'index', 'merge', 'alloc',
                      'random', 'softmax', 'finite', 'long'):
                yield dict(k=k, dt=dt, dbg=dbg)
            for kh in (1, 2, 3):
                for kw in (1, 2, 3):
                    yield dict(k='image', dt=dt, dbg=dbg, kh=kh, kw=kw,
                               size=6 if th else 4, stride=3 if th else 2)
    for name in sorted(WRONG):
        yield dict(k='wrong', op=name)
    yield dict(k='nanarg')


# --------------------------------------------------- scalar definitions --

def sig(x):
    if x != x:
        return x
    if x >= 0:
        return 1.0 / (1.0 + math.exp(-x))
    return math.exp(x) / (1.0 + math.exp(x)) if x > -700 else 0.0


def sgn(x):
    return x if x != x else float((x > 0) - (x < 0))


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return NAN
        return math.copysign(float('inf'), a) * math.copysign(1, b)
    return a / b


def fmod(a, b):
    return NAN if b == 0 or a != a or b != b else math.fmod(a, b)


def mul(a, b):
    return a * b


# name -> (kinds of arguments, definition of the new output)
# kinds: 'a' array operand, 's' scalar, 'o' output; the definition gets the
# operands in the order of the arguments, with the old output for 'o'
ELEM = {
    'abs_t': ('ao', lambda a, o: abs(a)),
    'sign_t': ('ao', lambda a, o: sgn(a)),
    'sqrt_t': ('ao', lambda a, o: math.sqrt(a) if a >= 0 else NAN),
    'log_t': ('ao', lambda a, o: NAN if not a >= 0 else
              -float('inf') if a == 0 else math.log(a)),
    'clip_t': ('asso', lambda a, lo, hi, o: a if a != a else
               min(max(a, lo), hi)),
    'add_st': ('sao', lambda s, a, o: s + a),
    'mult_st': ('sao', lambda s, a, o: s * a),
    'mult_add_st': ('sao', lambda s, a, o: o + s * a),
    'add_tt': ('aao', lambda a, b, o: a + b),
    'subtract_tt': ('aao', lambda a, b, o: a - b),
    'mult_tt': ('aao', lambda a, b, o: a * b),
    'mult_add_tt': ('aao', lambda a, b, o: o + a * b),
    'divide_tt': ('aao', lambda a, b, o: div(a, b)),
    'modulo_tt': ('aao', lambda a, b, o: fmod(a, b)),
    'copy_to': ('ao', lambda a, o: a),
    'fill': ('os', lambda o, s: s),
    'fill_if': ('osc', lambda o, s, c: s if c != 0 else o),
    'copy_to_if': ('aoc', lambda a, o, c: a if c != 0 else o),
    'add_into_if': ('aoc', lambda a, o, c: o + a if c != 0 else o),
    'rel': ('ao', lambda a, o: a if a != a or a > 0 else 0.0),
    'sigmoid': ('ao', lambda a, o: sig(a)),
    'tanh': ('ao', lambda a, o: math.tanh(a)),
    'el': ('ao', lambda a, o: a if a != a or a >= 0 else math.expm1(a)),
    'rel_deriv': ('nado', lambda n, y, d, o: d if y > 0 else 0.0),
    'sigmoid_deriv': ('nado', lambda n, y, d, o: d * y * (1.0 - y)),
    'tanh_deriv': ('nado', lambda n, y, d, o: d * (1.0 - y * y)),
    'el_deriv': ('nado', lambda n, y, d, o: d if y >= 0 else d * (y + 1.0)),
}
NAN_OK = ('abs_t', 'sign_t', 'add_tt', 'mult_tt', 'subtract_tt', 'rel',
          'sigmoid', 'tanh', 'el', 'copy_to', 'mult_add_tt', 'add_st')
SMALL = (-1.0, -0.75, -0.25, -0.0, 0.0, 0.25, 0.5, 1.0)
DERIV_Y = {'sigmoid_deriv': (0.0, 0.25, 0.5, 1.0), 'rel_deriv':
           (0.0, 0.5, 2.0, 1e30), 'tanh_deriv': SMALL,
           'el_deriv': (-1.0, -0.5, 0.0, 0.5, 1e30)}
SHAPES = [(1,), (3,), (0,), (2, 3), (3, 1), (0, 2), (2, 1, 3), (2, 2, 1, 2)]


def handler(case):
    h = NumpyHandler(np.dtype(case['dt']).type)
    return DebugHandler(h) if case['dbg'] else h


class Mem(object):
    """An operand inside a larger guarded block of memory."""

    def __init__(self, h, value, layout, dt):
        self.h, self.layout = h, layout
        v = np.asarray(value, dtype=dt)
        if layout == 'strided' and v.ndim:
            big = np.full(v.shape[:-1] + (v.shape[-1] + 3,), 77.25, dt)
            sl = (Ellipsis, slice(1, 1 + v.shape[-1]))
        elif layout == 'rows' and v.ndim:
            big = np.full((v.shape[0] + 3,) + v.shape[1:], 77.25, dt)
            sl = (slice(1, 1 + v.shape[0]),)
        else:
            big, sl = np.full(v.shape, 77.25, dt), (Ellipsis,)
        self.big, self.arr = big, big[sl]
        self.arr[...] = v
        self.sl = sl
        self.before = big.copy()

    def arg(self):
        if isinstance(self.h, DebugHandler):
            from brainstorm.handlers.debug_handler import DebugArray
            return DebugArray(self.arr)
        return self.arr

    def outside_ok(self):
        a, b = self.big.copy(), self.before.copy()
        a[self.sl] = 0
        b[self.sl] = 0
        return same_bits(a, b)

    def unchanged(self):
        return same_bits(self.big, self.before)


def same_bits(a, b):
    return a.tobytes() == b.tobytes()


def f32(x, dt):
    return float(np.dtype(dt).type(x))


def near(got, want, dt, scale=0.0):
    if want != want:
        return got != got
    tol = 2e-5 if dt == 'float32' else 1e-11
    if abs(want) > 3e38 and dt == 'float32':
        want = math.copysign(float('inf'), want)
    if got == want:
        return True
    if math.isinf(want) or math.isinf(got) or got != got:
        return False
    return abs(got - want) <= tol * (abs(want) + scale) + \
        (1e-37 if dt == 'float32' else 1e-300)


def compare(got, want, dt, what, scale=None):
    g, w = np.asarray(got), np.asarray(want, dtype=float)
    check(g.shape == w.shape, '{}: shape {} instead of {}', what, g.shape,
          w.shape)
    s = np.zeros(w.shape) if scale is None else np.asarray(scale)
    for i, (x, y, q) in enumerate(zip(g.ravel().tolist(), w.ravel().tolist(),
                                      s.ravel().tolist())):
        check(near(x, y, dt, q), '{}: entry {} is {!r}, expected {!r}', what,
              i, x, y)


def fillvals(vals, shape, shift):
    n = int(np.prod(shape))
    return np.array([vals[(i * (1 if shift == 0 else shift + 1) + shift) %
                          len(vals)] for i in range(n)]).reshape(shape)


def elem(case, ctx):
    op, dt, dbg = case['op'], case['dt'], case['dbg']
    kinds, f = ELEM[op]
    narr = [i for i, c in enumerate(kinds) if c in 'adco']
    jobs = []
    base = VALS + ((NAN,) if op in NAN_OK and not dbg else ())
    if op in ('mult_tt', 'mult_add_tt', 'mult_st', 'mult_add_st'):
        base = tuple(v for v in base if abs(v) != 1e30)
    if dbg and op == 'sqrt_t':
        base = tuple(v for v in base if v >= 0)
    if dbg and op == 'log_t':
        base = tuple(v for v in base if v > 0)

    def alphabet(i):
        c = kinds[i]
        if c == 'c':
            return (0.0, 1.0, -0.5, 0.0, 2.0)
        if op in DERIV_Y:
            return DERIV_Y[op] if c == 'a' else SMALL
        if op in ('divide_tt', 'modulo_tt'):
            a = tuple(v for v in base if abs(v) != 1e30)
            if i == 1 and dbg:
                a = tuple(v for v in a if v != 0)
            return a
        return base
    # all combinations of operand values in one long array
    alphas = [alphabet(i) for i in narr]
    if len(alphas) == 3:
        alphas[2] = alphas[2] if kinds[narr[2]] == 'c' else \
            alphas[2][:3] + (1.25,)
    grid = np.array(list(itertools.product(*alphas)), dtype=float)
    jobs.append([grid[:, j] for j in range(len(narr))])
    for sh in SHAPES:
        jobs.append([fillvals(alphabet(i), sh, j)
                     for j, i in enumerate(narr)])
    scalars = {'clip_t': [(-1.0, 1.0), (0.0, 0.0), (-0.5, 2), (0, 1000.0)]}
    ns = kinds.count('s')
    svals = scalars.get(op, [(s,) for s in (0.0, 1.0, -2.5, 3, 1e-3)]
                        if ns else [()])
    outpos = kinds.index('o')
    h = handler(case)
    for vals in jobs:
        for sc in svals:
            for layout in ('plain', 'strided', 'rows'):
                aliases = [None] + [i for i in narr if i != outpos and
                                    kinds[i] in 'ad']
                for alias in aliases:
                    for nonarg in ((False, True) if 'n' in kinds
                                   else (False,)):
                        run_elem(h, op, kinds, f, vals, narr, outpos, sc,
                                 layout, alias, nonarg, dt, ctx)
        ctx.state(op, dt, dbg, np.asarray(vals[0]).shape)
    ctx.trace()


def run_elem(h, op, kinds, f, vals, narr, outpos, sc, layout, alias, nonarg,
             dt, ctx):
    mem = {}
    for v, i in zip(vals, narr):
        if i == outpos and alias is not None:
            continue
        mem[i] = Mem(h, v, layout, dt)
    if alias is not None:
        mem[outpos] = mem[alias]
    args, q = [], list(sc)
    xmem = None
    for i, c in enumerate(kinds):
        if c == 's':
            args.append(q.pop(0))
        elif c == 'n':
            if nonarg:
                xmem = Mem(h, np.full(mem[outpos].arr.shape, 0.3), layout,
                           dt)
            args.append(xmem.arg() if nonarg else None)
        else:
            args.append(mem[i].arg())
    old = {i: mem[i].arr.astype(float).copy() for i in narr}
    getattr(h, op)(*args)
    cols = []
    q = list(sc)
    n = old[outpos].size
    for i, c in enumerate(kinds):
        if c == 's':
            cols.append([float(q.pop(0))] * n)
        elif c == 'n':
            cols.append([0.3] * n)
        else:
            cols.append(old[i].ravel().tolist())
    want = np.array([f(*t) for t in zip(*cols)], dtype=float).reshape(
        old[outpos].shape)
    scale = None
    if len(narr) > 1 or op in ('add_st', 'clip_t'):
        scale = np.zeros(old[outpos].shape)
        for c in cols:
            a = np.abs(np.nan_to_num(np.array(c, float))).reshape(
                scale.shape)
            scale = np.maximum(scale, a)
        if 'deriv' not in op and 'mult' in op:
            scale = scale * 0 + np.abs(np.nan_to_num(
                old[outpos])) if 'add' in op else scale * 0
        if op in ('divide_tt', 'modulo_tt', 'copy_to', 'fill'):
            scale = scale * 0
    what = '%s on %s %s operands%s%s' % (
        op, layout, old[outpos].shape, '' if alias is None else
        ', output is argument %d' % alias, ' %r' % (sc,) if sc else '')
    compare(mem[outpos].arr, want, dt, what, scale)
    for i in narr:
        if mem[i] is mem[outpos]:
            continue
        check(mem[i].unchanged(), '{}: argument {} was changed', what, i)
    check(mem[outpos].outside_ok(), '{}: memory outside the output was '
          'changed', what)
    if xmem is not None:
        check(xmem.unchanged(), '{}: x was changed', what)
    ctx.step()


def mv(case, ctx):
    op, dt = case['op'], case['dt']
    h = handler(case)
    f = {'add_mv': lambda m, v, o: m + v, 'subtract_mv': lambda m, v, o:
         m - v, 'mult_mv': lambda m, v, o: m * v,
         'divide_mv': lambda m, v, o: div(m, v),
         'mult_add_mv': lambda m, v, o: o + m * v}[op]
    vals = (0.5, -1.5, 2.0, 0.0, 3.25, -0.25, 7.0)
    for M in range(0, 4):
        for N in range(1, 4):
            vshapes = [(1, N), (M, 1)]
            if op == 'mult_mv':
                vshapes.append((M, N))
            for vs in vshapes:
                for layout in ('plain', 'strided', 'rows'):
                    for alias in (False, True):
                        m = Mem(h, fillvals(vals, (M, N), 1), layout, dt)
                        vv = tuple(v for v in vals if v or
                                   'divide' not in op)
                        v = Mem(h, fillvals(vv, vs, 2), layout, dt)
                        o = m if alias else Mem(h, fillvals(vals, (M, N), 4),
                                                layout, dt)
                        a, b, c = (x.arr.astype(float) for x in (m, v, o))
                        getattr(h, op)(m.arg(), v.arg(), o.arg())
                        want = np.array([[f(a[i, j], b[
                            i if vs[0] == M and not (vs[0] == 1) else 0,
                            j if vs[1] == N and not (vs[1] == 1) else 0],
                            c[i, j]) for j in range(N)]
                            for i in range(M)]).reshape(M, N)
                        what = '%s of %s and %s (%s)' % (op, (M, N), vs,
                                                         layout)
                        compare(o.arr, want, dt, what, np.abs(want) * 0 + 9)
                        check(v.unchanged() and (alias or m.unchanged()),
                              '{}: an operand was changed', what)
                        check(o.outside_ok(), '{}: memory outside the output '
                              'was changed', what)
                        ctx.step()
            ctx.state(op, M, N)
    ctx.trace()


def dot(case, ctx):
    dt, m = case['dt'], case['m']
    h = handler(case)
    vals = (0.5, -1.5, 2.0, 0.25, 3.0, -0.75, 1.0)
    for k, n in itertools.product(range(1, case['n'] + 1), repeat=2):
        for ta, tb in itertools.product((False, True), repeat=2):
            for op in ('dot_mm', 'dot_add_mm'):
                for layout in ('plain', 'strided', 'rows'):
                    a = Mem(h, fillvals(vals, (k, m) if ta else (m, k), 0),
                            layout, dt)
                    b = Mem(h, fillvals(vals, (n, k) if tb else (k, n), 3),
                            layout, dt)
                    o = Mem(h, fillvals(vals, (m, n), 5), layout, dt)
                    A = a.arr.T if ta else a.arr
                    B = b.arr.T if tb else b.arr
                    want = [[sum(float(A[i, q]) * float(B[q, j])
                                 for q in range(k)) +
                             (float(o.arr[i, j]) if 'add' in op else 0.0)
                             for j in range(n)] for i in range(m)]
                    kw = {}
                    if ta or (m + k) % 2:
                        kw['transa'] = ta
                    if tb or (n + k) % 2:
                        kw['transb'] = tb
                    getattr(h, op)(a.arg(), b.arg(), o.arg(), **kw)
                    what = '%s %dx%dx%d transa=%s transb=%s %s' % (
                        op, m, k, n, ta, tb, layout)
                    compare(o.arr, want, dt, what, np.full((m, n), 9.0))
                    check(a.unchanged() and b.unchanged(), '{}: an operand '
                          'was changed', what)
                    check(o.outside_ok(), '{}: wrote outside the output',
                          what)
                    ctx.step()
        ctx.state('dot', m, k, n)
    ctx.trace()


def sums(case, ctx):
    dt, h = case['dt'], handler(case)
    vals = (0.5, -1.5, 2.0, 0.25, 3.0, -0.75, 1.0)
    shapes = [(1,), (3,)] + list(itertools.product((1, 2, 3), repeat=2)) + \
        [(2, 1, 3), (1, 3, 2), (2, 2, 2)]
    for sh in shapes:
        for layout in ('plain', 'strided', 'rows'):
            a = Mem(h, fillvals(vals, sh, 1), layout, dt)
            x = a.arr.astype(float)
            todo = [(None, (), x.ravel().tolist)]
            for ax in [None] + list(range(len(sh))):
                outs = [()] if ax is None else [
                    sh[:ax] + sh[ax + 1:], sh[:ax] + (1,) + sh[ax + 1:]]
                for osh in outs:
                    o = Mem(h, np.full(osh, 5.0), layout if osh else 'plain',
                            dt)
                    if ax is None:
                        want = np.array(sum(x.ravel().tolist()))
                    else:
                        want = np.zeros(osh)
                        for idx in itertools.product(*map(range, sh)):
                            t = idx[:ax] + ((0,) if len(osh) == len(sh)
                                            else ()) + idx[ax + 1:]
                            want[t] += x[idx]
                    h.sum_t(a.arg(), ax, o.arg())
                    what = 'sum_t of %s over axis %r into %s' % (sh, ax, osh)
                    compare(o.arr, want, dt, what, np.full(osh, 9.0))
                    check(a.unchanged() and o.outside_ok(),
                          '{}: wrote outside the output', what)
                    ctx.step()
        ctx.state('sum', sh)
    ctx.trace()


def broadcast(case, ctx):
    dt, h = case['dt'], handler(case)
    vals = (0.5, -1.5, 2.0, 0.25, 3.0, -0.75, 1.0)
    for nd in (1, 2, 3):
        for sh in itertools.product((1, 2, 3), repeat=nd):
            for ax in range(nd):
                for layout in ('plain', 'strided', 'rows'):
                    ish = sh[:ax] + (1,) + sh[ax + 1:]
                    a = Mem(h, fillvals(vals, ish, 1), layout, dt)
                    o = Mem(h, np.full(sh, 5.0), layout, dt)
                    h.broadcast_t(a.arg(), ax, o.arg())
                    want = np.repeat(a.arr, sh[ax], axis=ax)
                    what = 'broadcast_t %s axis %d' % (sh, ax)
                    compare(o.arr, want, dt, what)
                    check(a.unchanged() and o.outside_ok(),
                          '{}: wrote outside the output', what)
                    ctx.step()
            ctx.state('bc', sh)
    ctx.trace()


def index(case, ctx):
    dt, h = case['dt'], handler(case)
    for n in range(1, 4):
        for w in range(1, 4):
            for idx in itertools.product(range(w), repeat=n):
                for layout in ('plain', 'strided', 'rows'):
                    m = Mem(h, fillvals(VALS, (n, w), 2), layout, dt)
                    v = Mem(h, np.array(idx, float).reshape(n, 1), layout,
                            dt)
                    o = Mem(h, np.full((n, 1), 5.0), layout, dt)
                    h.index_m_by_v(m.arg(), v.arg(), o.arg())
                    want = [[float(m.arr[i, idx[i]])] for i in range(n)]
                    compare(o.arr, want, dt, 'index_m_by_v %s' % (idx,))
                    b = Mem(h, np.full((n, w), 5.0), layout, dt)
                    h.binarize_v(v.arg(), b.arg())
                    want = [[float(j == idx[i]) for j in range(w)]
                            for i in range(n)]
                    compare(b.arr, want, dt, 'binarize_v %s' % (idx,))
                    check(m.unchanged() and v.unchanged() and
                          o.outside_ok() and b.outside_ok(),
                          'indexing wrote to something else')
                    ctx.step(2)
                ctx.state('index', n, w, idx)
    # many columns / rows
    for n, w in ((2, 200), (200, 2), (3, 300), (2, 33000), (33000, 2),
                 (2, 70000)):
        cols = sorted({0, 1, 127, 128, 199, 255, 256, w // 2, w - 2, w - 1,
                       32767, 32768, 65535, 65536})
        for c in cols:
            if c >= w:
                continue
            idx = [(c + 7 * i * (i % 3)) % w for i in range(n)]
            a = np.arange(n * w, dtype=dt).reshape(n, w) % 65537
            m = Mem(h, a, 'plain', dt)
            v = Mem(h, np.array(idx, float).reshape(n, 1), 'plain', dt)
            o = Mem(h, np.full((n, 1), 5.0), 'plain', dt)
            h.index_m_by_v(m.arg(), v.arg(), o.arg())
            check(np.array_equal(o.arr[:, 0], a[np.arange(n), idx]),
                  'index_m_by_v of {} columns at {}', w, idx[:3])
            if w > 1000:
                continue
            b = Mem(h, np.full((n, w), 5.0), 'plain', dt)
            h.binarize_v(v.arg(), b.arg())
            want = np.zeros((n, w))
            want[np.arange(n), idx] = 1
            check(np.array_equal(b.arr, want), 'binarize_v of {} columns at '
                  '{}', w, idx[:3])
            ctx.step(2)
        ctx.state('index', n, w)
    ctx.trace()


def merge(case, ctx):
    dt, h = case['dt'], handler(case)
    for lead in ((1,), (2,), (3,), (2, 1), (2, 3), (1, 2, 2)):
        for fa in (1, 2, 3):
            for fb in (1, 2, 3):
                for layout in ('plain', 'rows'):
                    a = Mem(h, fillvals(VALS, lead + (fa,), 1), layout, dt)
                    b = Mem(h, fillvals(VALS, lead + (fb,), 2), layout, dt)
                    o = Mem(h, np.full(lead + (fa + fb,), 5.0), layout, dt)
                    h.merge_tt(a.arg(), b.arg(), o.arg())
                    compare(o.arr, np.concatenate([a.arr, b.arr], axis=-1),
                            dt, 'merge_tt')
                    check(a.unchanged() and b.unchanged() and
                          o.outside_ok(), 'merge_tt wrote elsewhere')
                    vals = (0.5, -1.5, 2.0, 0.25, 3.0)
                    x = Mem(h, fillvals(vals, lead + (fa + fb,), 1), layout,
                            dt)
                    oa = Mem(h, fillvals(vals, lead + (fa,), 2), layout, dt)
                    ob = Mem(h, fillvals(vals, lead + (fb,), 3), layout, dt)
                    wa = oa.arr + x.arr[..., :fa]
                    wb = ob.arr + x.arr[..., fa:]
                    h.split_add_tt(x.arg(), oa.arg(), ob.arg())
                    compare(oa.arr, wa, dt, 'split_add_tt first')
                    compare(ob.arr, wb, dt, 'split_add_tt second')
                    check(x.unchanged() and oa.outside_ok() and
                          ob.outside_ok(), 'split_add_tt wrote elsewhere')
                    ctx.step(2)
                ctx.state('merge', lead, fa, fb)
    ctx.trace()


def raw(x):
    return getattr(x, 'array', x)


def alloc(case, ctx):
    dt, h = case['dt'], handler(case)
    for sh in SHAPES + [(4, 5), (0,)]:
        for op, v in (('allocate', 0.0), ('zeros', 0.0), ('ones', 1.0)):
            for again in range(3):
                x = raw(getattr(h, op)(sh))
                check(x.shape == sh and x.dtype == dt and (x == v).all(),
                      '{}({}) gave {} {}', op, sh, x.shape, x.dtype)
                x[...] = 7.0        # does not affect later allocations
                ctx.step()
        src = fillvals(VALS, sh, 1).astype(dt)
        keep = src.copy()
        c = h.create_from_numpy(src)
        raw(c)[...] = 3.0
        check(same_bits(src, keep), 'create_from_numpy shares memory')
        c = h.create_from_numpy(src)
        g = h.get_numpy_copy(c)
        check(isinstance(g, np.ndarray) and same_bits(g, src),
              'get_numpy_copy')
        g[...] = 4.0
        check(same_bits(raw(c), keep), 'get_numpy_copy shares memory')
        for layout in ('plain', 'strided', 'rows'):
            for sdt in ('float32', 'float64', 'int64'):
                m = Mem(h, np.full(sh, 2.0), layout, dt)
                v = fillvals((1.0, -3.0, 8.0, 0.0), sh, 0).astype(sdt)
                kv = v.copy()
                h.set_from_numpy(m.arg(), v)
                check(np.array_equal(m.arr, v.astype(dt)) and
                      m.outside_ok() and same_bits(v, kv),
                      'set_from_numpy from {}', sdt)
                ctx.step()
        ctx.state('alloc', sh)
    check(raw(h.EMPTY).size == 0, 'EMPTY is not empty')
    ctx.trace()


def random(case, ctx):
    dt = case['dt']

    def seeded(seed):
        h = NumpyHandler(np.dtype(dt).type, seed=seed)
        return DebugHandler(h) if case['dbg'] else h
    for layout in ('plain', 'strided', 'rows'):
        for sh in ((200, 10), (50, 4, 10), (2000,)):
            for p in (0.0, 0.1, 0.5, 0.9, 1.0):
                outs = []
                for seed in (1, 1, 2):
                    h = seeded(seed)
                    m = Mem(h, np.full(sh, 5.0), layout, dt)
                    h.generate_probability_mask(m.arg(), p)
                    v = m.arr.copy()
                    check(set(np.unique(v)) <= {0.0, 1.0},
                          'probability mask has values {}', np.unique(v)[:5])
                    check(abs(v.mean() - p) < 0.05, 'mask of probability {} '
                          'has mean {}', p, v.mean())
                    check(p not in (0.0, 1.0) or (v == p).all(),
                          'mask of probability {}', p)
                    check(m.outside_ok(), 'mask wrote outside')
                    m2 = Mem(h, np.full(sh, 5.0), layout, dt)
                    h.generate_probability_mask(m2.arg(), p)
                    check(p in (0.0, 1.0) or not np.array_equal(m2.arr, v),
                          'the same mask twice')
                    outs.append(v)
                check(np.array_equal(outs[0], outs[1]), 'masks differ for '
                      'the same seed')
                check(p in (0.0, 1.0) or not np.array_equal(
                    outs[0], outs[2]), 'masks agree for different seeds')
                ctx.step(3)
            for mean, std in ((0.0, 1.0), (3.0, 0.5), (-1.0, 0.0)):
                outs = []
                for seed in (1, 1, 2):
                    h = seeded(seed)
                    m = Mem(h, np.full(sh, 5.0), layout, dt)
                    h.fill_gaussian(mean, std, m.arg())
                    v = m.arr.astype(float)
                    check(abs(v.mean() - mean) < 0.1 and
                          abs(v.std() - std) < 0.1, 'gaussian({}, {}) has '
                          'mean {} and deviation {}', mean, std, v.mean(),
                          v.std())
                    check(m.outside_ok(), 'fill_gaussian wrote outside')
                    outs.append(v)
                check(np.array_equal(outs[0], outs[1]), 'noise differs for '
                      'the same seed')
                check(std == 0 or not np.array_equal(outs[0], outs[2]),
                      'noise agrees for different seeds')
                ctx.step(3)
        ctx.state('random', layout)
    ctx.trace()


LONG = list(range(1, 141)) + [199, 200, 255, 256, 257, 511, 512, 513, 1000,
                              1023, 1024, 1025, 4095, 4096, 4097]
FEW = [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257]


def ints(shape, shift):
    n = int(np.prod(shape))
    return ((np.arange(n) * (3 + 2 * shift) + shift) % 13 - 6.0).reshape(shape)


def long(case, ctx):
    """Every length of every dimension: each operation has to do on many
    entries what it does on a few (elementwise operations) or what exact
    arithmetic on small integers gives."""
    dt, h = case['dt'], handler(case)

    def operand(v):
        return Mem(h, v, 'plain', dt)

    def same(got, want, what):
        g, w = got.arr.astype(float), np.asarray(want, dtype=float)
        ok = np.abs(g - w) <= (1e-5 if dt == 'float32' else 1e-12) * (
            1 + np.abs(w))
        check(g.shape == w.shape and ok.all(), '{}: {} of {} entries are '
              'wrong, the first is {}', what, (~ok).sum(), ok.size,
              np.argwhere(~ok)[:1].tolist())
        ctx.step()

    base = np.array((0.5, -0.75, 0.25, 1.0, -0.25, 0.75, -0.5))
    for op in sorted(ELEM):
        kinds = ELEM[op][0]

        def column(i, n):
            v = np.roll(base, i)
            if op in ('sqrt_t', 'log_t'):
                v = np.abs(v)
            if kinds[i] == 'c':
                v = (v > 0) * 1.0
            return np.resize(v, n)
        few = None
        for n in [7] + LONG:
            for sh in ((n,), (n, 2), (2, n), (3, n, 1)):
                mem, args = [], []
                for i, c in enumerate(kinds):
                    if c == 's':
                        args.append(0.625 if op != 'clip_t' else
                                    (None, -0.3, 0.6)[i])
                    elif c == 'n':
                        args.append(None)
                    else:
                        m = operand(column(i, int(np.prod(sh))).reshape(sh))
                        mem.append((c, m))
                        args.append(m.arg())
                getattr(h, op)(*args)
                out = [m for c, m in mem if c == 'o'][0]
                if few is None:
                    few = out.arr.astype(float).copy()
                same(out, np.resize(few, sh), '%s of %s' % (op, sh))
                check(all(m.unchanged() for c, m in mem if c != 'o'),
                      '{} changed an operand', op)
        ctx.state(op)
    for n, other in itertools.product(LONG, (1, 3)):
        for sh in ((n, other), (other, n)):
            a = ints(sh, 1)
            for op, f in (('add_mv', np.add), ('subtract_mv', np.subtract),
                          ('mult_mv', np.multiply),
                          ('divide_mv', np.divide)):
                for vs in ((1, sh[1]), (sh[0], 1)):
                    v = ints(vs, 2)
                    if op == 'divide_mv':
                        v[v == 0] = 8.0
                    o = operand(np.full(sh, 5.0))
                    getattr(h, op)(operand(a).arg(), operand(v).arg(),
                                   o.arg())
                    same(o, f(a, v), '%s of %s and %s' % (op, sh, vs))
            for ax in (None, 0, 1):
                o = operand(np.full([d for i, d in enumerate(sh)
                                     if i != ax] if ax is not None else (),
                                    5.0))
                h.sum_t(operand(a).arg(), ax, o.arg())
                same(o, a.sum(axis=ax), 'sum_t of %s over %s' % (sh, ax))
            for ax in (0, 1):
                v = ints(sh[:ax] + (1,) + sh[ax + 1:], 0)
                o = operand(np.full(sh, 5.0))
                h.broadcast_t(operand(v).arg(), ax, o.arg())
                same(o, np.repeat(v, sh[ax], axis=ax), 'broadcast_t')
            o = operand(np.full(sh, 5.0))
            h.softmax_m(operand(a).arg(), o.arg())
            e = np.exp(a - a.max(axis=1)[:, None])
            same(o, e / e.sum(axis=1)[:, None], 'softmax_m of %s' % (sh,))
            b = ints(sh[:1] + (2,), 2)
            for x, y in ((a, b), (b, a)):
                o = operand(np.full((sh[0], sh[1] + 2), 5.0))
                h.merge_tt(operand(x).arg(), operand(y).arg(), o.arg())
                same(o, np.hstack([x, y]), 'merge_tt of %s' % (sh,))
                p, q = operand(x), operand(y)
                h.split_add_tt(o.arg(), p.arg(), q.arg())
                same(p, 2 * x, 'split_add_tt of %s' % (sh,))
                same(q, 2 * y, 'split_add_tt of %s' % (sh,))
            m = operand(a)
            check(bool(h.is_fully_finite(m.arg())), '{} is finite', sh)
            for k in {0, n // 2, n - 1}:
                m.arr[(k, 0) if sh[0] == n else (0, k)] = NAN
                check(not h.is_fully_finite(m.arg()), 'NaN at {} of {} was '
                      'not found', k, n)
                m.arr[...] = a
        ctx.state('mv', n, other)
    for m, k, n in [t for i in range(3) for x in LONG[::2] for t in
                    [tuple(x if j == i else 2 for j in range(3))]] + \
            list(itertools.product(FEW[::3], repeat=3)):
        for ta, tb in itertools.product((False, True), repeat=2):
            a, b, o = ints((m, k), 1), ints((k, n), 2), ints((m, n), 0)
            for op, start in (('dot_mm', 0), ('dot_add_mm', o)):
                r = operand(o)
                getattr(h, op)(operand(a.T.copy() if ta else a).arg(),
                               operand(b.T.copy() if tb else b).arg(),
                               r.arg(), transa=ta, transb=tb)
                same(r, a.dot(b) + start, '%s of %dx%dx%d' % (op, m, k, n))
        ctx.state('dot', m, k, n)
    ctx.trace()


def softmax(case, ctx):
    dt, h = case['dt'], handler(case)
    vals = (-1e30, -1000.0, -1.0, 0.0, 0.5, 2.0, 1000.0, 1e30)
    for w in (1, 2, 3):
        rows = np.array(list(itertools.product(vals, repeat=w)))
        for layout in ('plain', 'strided', 'rows'):
            for alias in (False, True):
                m = Mem(h, rows, layout, dt)
                o = m if alias else Mem(h, rows * 0, layout, dt)
                x = m.arr.astype(float).copy()
                h.softmax_m(m.arg(), o.arg())
                want = []
                for r in x.tolist():
                    t = [math.exp(v - max(r)) for v in r]
                    want.append([v / sum(t) for v in t])
                compare(o.arr, want, dt, 'softmax_m', np.full(x.shape, 0.1))
                check(alias or m.unchanged(), 'softmax_m changed its input')
                check(o.outside_ok(), 'softmax_m wrote outside')
                ctx.step()
        ctx.state('softmax', w)
    ctx.trace()


def finite(case, ctx):
    dt, h = case['dt'], handler(case)
    for sh in SHAPES:
        n = int(np.prod(sh))
        big = float(np.finfo(dt).max)
        for vals in (VALS, [big], [-big], [big, -big], [big, big, -big],
                     [np.finfo(dt).tiny], [0.0]):
            m = Mem(h, fillvals(vals, sh, 1), 'plain', dt)
            with np.errstate(all='ignore'):
                check(bool(h.is_fully_finite(m.arg())), 'array of finite '
                      'values called not finite: {}', vals)
            ctx.step()
        for i in range(n):
            for bad in (NAN, float('inf'), -float('inf')):
                m = Mem(h, fillvals(VALS, sh, 1), 'plain', dt)
                m.arr.reshape(-1)[i] = bad
                check(not h.is_fully_finite(m.arg()), '{} at {} was not '
                      'found', bad, i)
                ctx.step()
        ctx.state('finite', sh)
    ctx.trace()


# ---------------------------------------------------------------- images --

def windows(H, W, kh, kw, st, pad):
    oh, ow = (H + 2 * pad - kh) // st[0] + 1, (W + 2 * pad - kw) // st[1] + 1
    for y in range(oh):
        for x in range(ow):
            cells = [(y * st[0] - pad + i, x * st[1] - pad + j, i, j)
                     for i in range(kh) for j in range(kw)]
            yield y, x, [c for c in cells if 0 <= c[0] < H and 0 <= c[1] < W]


def image(case, ctx):
    dt, h = case['dt'], handler(case)
    kh, kw = case['kh'], case['kw']
    S = case['size']
    from vmc.nets import gen
    for H, W in itertools.product(range(1, S + 1), repeat=2):
        for st in itertools.product(range(1, case['stride'] + 1), repeat=2):
            for pad in (0, 1, 2):
                oh = (H + 2 * pad - kh) // st[0] + 1
                ow = (W + 2 * pad - kw) // st[1] + 1
                if H + 2 * pad < kh or W + 2 * pad < kw:
                    continue
                n, c, nf = 1 + (H + kh) % 2, 1 + (W + kw) % 2, 1 + \
                    (H + W) % 2
                x = gen(('x', H, W), (n, H, W, c))
                if (H * W) % 3 == 0:
                    x = np.round(x * 2) / 2         # ties
                d = gen(('d', H, W, pad), (n, oh, ow, c))
                base = gen(('b', H, W), (n, H, W, c))
                wins = list(windows(H, W, kh, kw, st, pad))
                what = 'of %dx%d images, window %dx%d, stride %s, padding ' \
                    '%d' % (H, W, kh, kw, st, pad)
                pools(h, dt, x, d, base, wins, (n, oh, ow, c), (kh, kw), st,
                      pad, what)
                conv(h, dt, x, base, wins, (n, oh, ow, nf), (kh, kw), st,
                     pad, what, gen)
                ctx.step(6)
                ctx.state('image', H, W, kh, kw, st, pad)
    ctx.trace()


def pools(h, dt, x, d, base, wins, osh, k, st, pad, what):
    n, c = osh[0], osh[3]
    for kind in ('max', 'avg'):
        X = Mem(h, x, 'rows', dt)
        x = X.arr.astype(float)
        out = Mem(h, np.full(osh, 5.0), 'rows', dt)
        D = Mem(h, d, 'rows', dt)
        d = D.arr.astype(float)
        ind = Mem(h, base, 'rows', dt)
        want, wind = np.zeros(osh), ind.arr.astype(float)
        for i in range(n):
            for q in range(c):
                for y, xx, cells in wins:
                    v = [x[i, a, b, q] for a, b, _, _ in cells]
                    if not v:
                        continue
                    if kind == 'avg':
                        want[i, y, xx, q] = sum(v) / len(v)
                        for a, b, _, _ in cells:
                            wind[i, a, b, q] += d[i, y, xx, q] / len(v)
                    else:
                        want[i, y, xx, q] = max(v)
                        a, b, _, _ = cells[v.index(max(v))]
                        wind[i, a, b, q] += d[i, y, xx, q]
        if kind == 'avg':
            h.avgpool2d_forward_batch(X.arg(), k, out.arg(), pad, st)
            extra = ()
        else:
            am = Mem(h, np.full(osh, 0.0), 'rows', dt)
            h.maxpool2d_forward_batch(X.arg(), k, out.arg(), pad, st,
                                      am.arg())
            extra = (am.arg(),)
            check(am.outside_ok(), 'max pooling wrote outside argmax')
        compare(out.arr, want, dt, '%s pooling %s' % (kind, what),
                np.full(osh, 1.0))
        keep = out.arr.copy()
        getattr(h, kind + 'pool2d_backward_batch')(
            X.arg(), k, out.arg(), pad, st, *(extra + (ind.arg(), D.arg())))
        compare(ind.arr, wind, dt, '%s pooling deltas %s' % (kind, what),
                np.full(wind.shape, 9.0))
        check(X.unchanged() and D.unchanged() and out.outside_ok() and
              ind.outside_ok() and np.array_equal(keep, out.arr),
              '{} pooling {} wrote elsewhere', kind, what)


def conv(h, dt, x, base, wins, osh, k, st, pad, what, gen):
    n, nf, c = osh[0], osh[3], x.shape[3]
    wsh = (nf,) + k + (c,)
    X = Mem(h, x, 'rows', dt)
    Wt = Mem(h, gen(('w',) + wsh, wsh), 'rows', dt)
    bias = Mem(h, gen(('bias', nf), (nf,)), 'rows', dt)
    out = Mem(h, np.full(osh, 5.0), 'rows', dt)
    D = Mem(h, gen(('cd',) + osh, osh), 'rows', dt)
    ind = Mem(h, base, 'rows', dt)
    dW = Mem(h, np.full(wsh, 9.0), 'rows', dt)
    db = Mem(h, np.full((nf,), 9.0), 'rows', dt)
    xv, wv, dv = (m.arr.astype(float) for m in (X, Wt, D))
    want = np.zeros(osh) + bias.arr.astype(float)
    wind = ind.arr.astype(float)
    wdW = np.zeros(wsh)
    for y, xx, cells in wins:
        for a, b, i, j in cells:
            want[:, y, xx] += xv[:, a, b].dot(wv[:, i, j].T)
            wind[:, a, b] += dv[:, y, xx].dot(wv[:, i, j])
            wdW[:, i, j] += dv[:, y, xx].T.dot(xv[:, a, b])
    h.conv2d_forward_batch(X.arg(), Wt.arg(), bias.arg(), out.arg(), pad, st)
    compare(out.arr, want, dt, 'convolution ' + what, np.full(osh, 20.0))
    h.conv2d_backward_batch(X.arg(), Wt.arg(), pad, st, ind.arg(), D.arg(),
                            dW.arg(), db.arg())
    compare(ind.arr, wind, dt, 'convolution deltas ' + what,
            np.full(wind.shape, 20.0))
    compare(dW.arr, wdW, dt, 'convolution weight gradient ' + what,
            np.full(wsh, 20.0))
    compare(db.arr, dv.sum(axis=(0, 1, 2)), dt, 'convolution bias gradient ' +
            what, np.full((nf,), 20.0))
    check(X.unchanged() and Wt.unchanged() and bias.unchanged() and
          D.unchanged() and out.outside_ok() and ind.outside_ok() and
          dW.outside_ok() and db.outside_ok(),
          'convolution {} wrote elsewhere', what)


# --------------------------------------------------- ill-formed calls -----

F = (2, 3)
# operation -> list of operands: ('t', shape) arrays, ('s', value) scalars
WRONG = {
    'add_mv': [('t', F), ('t', (1, 3)), ('t', F)],
    'subtract_mv': [('t', F), ('t', (2, 1)), ('t', F)],
    'mult_mv': [('t', F), ('t', (1, 3)), ('t', F)],
    'divide_mv': [('t', F), ('t', (1, 3)), ('t', F)],
    'mult_add_mv': [('t', F), ('t', (2, 1)), ('t', F)],
    'dot_mm': [('t', (2, 3)), ('t', (3, 4)), ('t', (2, 4))],
    'dot_add_mm': [('t', (2, 3)), ('t', (3, 4)), ('t', (2, 4))],
    'broadcast_t': [('t', (2, 1)), ('s', 1), ('t', F)],
    'softmax_m': [('t', F), ('t', F)],
    'index_m_by_v': [('t', F), ('t', (2, 1)), ('t', (2, 1))],
    'binarize_v': [('t', (2, 1)), ('t', F)],
    'merge_tt': [('t', (2, 3)), ('t', (2, 2)), ('t', (2, 5))],
    'split_add_tt': [('t', (2, 5)), ('t', (2, 3)), ('t', (2, 2))],
    'get_numpy_copy': [('t', F)],
    'generate_probability_mask': [('t', F), ('s', 0.5)],
}
for _n, (_k, _f) in ELEM.items():
    WRONG[_n] = [('s', 0.5) if c == 's' else ('none', None) if c == 'n'
                 else ('t', F) for c in _k]
    if _n == 'clip_t':
        WRONG[_n][2] = ('s', 0.75)

BADSHAPES = [(3, 2), (2, 4), (1, 3), (2, 1), (3,), (6,), (2, 3, 1), (1, 1),
             (), (4, 3), (3, 3)]


def build(h, ops):
    from brainstorm.handlers.debug_handler import DebugArray
    out = []
    for kind, v in ops:
        if kind == 't':
            a = np.full(v, 0.5)
            if v == (2, 1):
                a = np.zeros(v)
            out.append(DebugArray(a))
        elif kind == 'raw':
            out.append(np.full(v, 0.5))
        else:
            out.append(v)
    return out


def rejected(h, op, ops):
    args = build(h, ops)
    before = [raw(a).copy() if hasattr(raw(a), 'copy') else a for a in args]
    try:
        getattr(h, op)(*args)
    except Exception:
        for a, b in zip(args, before):
            if isinstance(raw(a), np.ndarray) and not same_bits(raw(a), b):
                return 'changed'
        return True
    return False


def wrong(case, ctx):
    h = DebugHandler(NumpyHandler(np.float64))
    op, ops = case['op'], WRONG[case['op']]
    args = build(h, ops)
    getattr(h, op)(*args)                    # the well-formed call works
    for i, (kind, v) in enumerate(ops):
        alts = []
        if kind == 't':
            alts += [('raw', v), ('s', 0.5), ('none', None),
                     ('list', [[0.5] * 3] * 2)]
            alone = sum(k == 't' for k, _ in ops) == 1
            if not alone:
                for sh in BADSHAPES:
                    if sh == v:
                        continue
                    if op in ('add_mv', 'subtract_mv', 'mult_mv',
                              'divide_mv', 'mult_add_mv') and i == 1 and \
                            sh in ((1, 3), (2, 1), (2, 3)):
                        continue
                    if op == 'binarize_v' and i == 1 and sh == (2, 1):
                        continue         # one class only
                    if op == 'binarize_v' and i == 1 and len(sh) == 2 and \
                            sh[0] == 2:
                        continue
                    if op == 'index_m_by_v' and i == 0 and len(sh) == 2 and \
                            sh[0] == 2:
                        continue
                    if op == 'broadcast_t' and i == 2 and len(sh) == 2 and \
                            sh[0] == 2:
                        continue
                    alts.append(('t', sh))
        elif kind == 's':
            alts += [('x', 'text'), ('none', None), ('t', F), ('raw', F),
                     ('list', [1.0])]
            if op == 'broadcast_t':
                alts += [('s', 2), ('s', -1), ('s', 0), ('s', 0.5)]
            if op == 'generate_probability_mask':
                alts += [('s', -0.1), ('s', 1.1), ('s', NAN)]
            if op == 'clip_t':
                alts += [('s', 0.9 if i == 1 else 0.2)]
        else:
            alts += [('raw', F), ('t', (3, 2)), ('s', 0.5)]
        for alt in alts:
            new = list(ops)
            new[i] = alt
            r = rejected(h, op, new)
            check(r is True, 'debug handler: {} with argument {} replaced by '
                  '{} {}', op, i, alt, 'was accepted' if not r else
                  'raised, but only after changing an operand')
            ctx.step()
            ctx.state(op, i, repr(alt))
    ctx.trace()


def nanarg(ctx):
    """NaN or infinity in any operand of any operation is reported."""
    h = DebugHandler(NumpyHandler(np.float64))
    for op, ops in sorted(WRONG.items()):
        for i, (kind, v) in enumerate(ops):
            for bad in (NAN, float('inf')):
                args = build(h, ops)
                if kind == 't' and op not in ('binarize_v',):
                    if op == 'index_m_by_v' and i != 0:
                        continue
                    outs = {'fill': 0, 'generate_probability_mask': 0}
                    if outs.get(op) == i or (
                            i == len(ops) - 1 and not (
                                '_add_' in op or op == 'add_into_if')) or \
                            op in ('fill_if', 'copy_to_if', 'copy_to') and \
                            i == 1 - (op == 'fill_if'):
                        continue                 # may be overwritten
                    raw(args[i])[0, 0] = bad
                elif kind == 's' and op in ('add_st', 'mult_st',
                                            'mult_add_st', 'fill'):
                    args[i] = bad
                else:
                    continue
                try:
                    getattr(h, op)(*args)
                except (ValueError, AssertionError):
                    ctx.step()
                    ctx.state('nan', op, i, repr(bad))
                    continue
                raise Violation('debug handler: %r in argument %d of %s was '
                                'not reported' % (bad, i, op))
    ctx.trace()


def run(case, ctx):
    k = case['k']
    if k == 'nanarg':
        nanarg(ctx)
        return
    {'elem': elem, 'mv': mv, 'dot': dot, 'sum': sums, 'broadcast': broadcast,
     'index': index, 'merge': merge, 'alloc': alloc, 'random': random,
     'softmax': softmax, 'long': long, 'finite': finite, 'image': image,
     'wrong': wrong}[k](case, ctx)
