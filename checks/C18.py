"""Evaluation and feature extraction do not depend on batching."""
import itertools
import os
import tempfile

import h5py
import numpy as np

from brainstorm import scorers as S
from brainstorm.data_iterators import DataIterator, Minibatches, Undivided
from brainstorm.handlers import NumpyHandler
from brainstorm.tools import evaluate, extract, extract_and_save
from checks.C15 import NETS, data, fresh, scorers, truth
from checks.specs import O, inp, L
from vmc.core import Violation, check
from vmc.nets import (gen, gen_int, make_net, set_params, generic_params,
                      get_params, expect_close)

BOUNDS = {
    'quick': '5 networks x N<=6 sequences x all 2^(N-1) ways to cut them '
             'into batches (arbitrary unequal ones included) and Minibatches '
             'of every size, shuffled or not; all non-zero masks for T=2,N=3 '
             'x all partitions; all masks of weights {0,.25,1,2} for T=N=2; scorers on all label/prediction/mask arrays '
             'of 2x2 and 3x1 over small alphabets; all name resolution '
             'choices; extraction of every buffer of 5 networks x all '
             'partitions of N<=5 x cut lengths; data without any proper '
             'subset of the inputs'
             '; 17 to 130 sequences; scores of up to 65537 classes and '
             '130 examples',
    'thorough': 'as quick with N<=8, masks for T=3,N=3 and 2x3 arrays',
}


class Parts(DataIterator):
    """Delivers given consecutive batches."""

    def __init__(self, sizes, data):
        super(Parts, self).__init__({k: v.shape for k, v in data.items()},
                                    len(sizes))
        self.sizes, self.data = sizes, data

    def __call__(self, handler=None):
        pos = 0
        for s in self.sizes:
            yield {k: v[:, pos:pos + s] for k, v in self.data.items()}
            pos += s


def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        out, cur = [], 1
        for b in bits:
            if b:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        yield tuple(out + [cur])


def cases(tier):
    th = tier == 'thorough'
    for net in sorted(NETS):
        for N in list(range(1, 9 if th else 7)) + LONG:
            yield dict(k='eval', net=net, N=N)
    T, N = (3, 3) if th else (2, 3)
    for head in itertools.product((0, 1), repeat=T):
        yield dict(k='mask', head=head, T=T, N=N, abc=(0, 1))
    for head in itertools.product((0, 0.25, 1, 2), repeat=2):
        yield dict(k='mask', head=head, T=2, N=2, abc=(0, 0.25, 1, 2))
    for name in ('Accuracy', 'Accuracy1', 'Hamming', 'MeanSquaredError'):
        for shape in ((2, 2), (3, 1)) + (((2, 3),) if th else ()):
            yield dict(k='score', name=name, shape=shape)
    yield dict(k='names')
    yield dict(k='aggregate')
    for net in sorted(NETS):
        for N in list(range(1, 8 if th else 6)) + LONG[::2]:
            yield dict(k='extract', net=net, N=N)
    yield dict(k='classes')
    for first in range(1, 4):
        yield dict(k='cut', first=first)
    yield dict(k='dtype')
    for net in sorted(NETS):
        yield dict(k='missing', net=net)


LONG = [17, 33, 64, 65, 130]


def classes(ctx):
    """Any class of any number of classes, and any number of examples."""
    for F in (2, 10, 126, 127, 128, 129, 255, 256, 257, 1000, 32768, 32769,
              65537):
        few = F > 1000
        js = sorted({j for j in (0, 1, 126, 127, 128, 254, 255, 256, 32767,
                                 32768, 65535, 65536, F // 2, F - 2, F - 1)
                     if j < F})
        for P in (1, 3, 130):
            if few and P > 3:
                continue
            m = np.ones((P, 1))
            for j in js:
                idx = [(j + 7 * i) % F for i in range(P)]
                p = np.zeros((P, F))
                p[np.arange(P), idx] = 0.9
                t = np.array(idx, float).reshape(P, 1)
                wrong = t.copy()
                wrong[::2, 0] = (wrong[::2, 0] + 1) % F
                right = P - len(range(0, P, 2))
                for tt, want in ((t, P), (wrong, right)):
                    for got in (S.Accuracy()(tt, p), S.Accuracy()(tt, p, m)):
                        check(abs(got - want) < 1e-9, 'Accuracy of {} '
                              'examples of class {} of {} is {} instead of '
                              '{}', P, j, F, got, want)
                    ctx.step(2)
                h = np.zeros((P, F))
                h[np.arange(P), idx] = 1
                got = S.Hamming()(h * 0, p) * F
                check(abs(got - P * (F - 1)) < 1e-6 * F * P, 'Hamming of '
                      '{} labels', F)
                got = S.MeanSquaredError()(h, p)
                check(abs(got - 0.005 * P) < 1e-9, 'MeanSquaredError of {}',
                      F)
            ctx.state('classes', F, P)
    ctx.trace()


def iters(N, d, shuffle=True):
    for p in compositions(N) if N < 10 else [(N - 3, 3), (1, N - 1)]:
        yield 'batches %s' % (p,), Parts(p, d)
    for b in range(1, N + 2):
        if N > 10 and b not in (1, 2, 7, 16, 32, 64, N // 2, N - 1, N, N + 1):
            continue
        yield 'Minibatches(%d)' % b, Minibatches(
            b, False, cut_according_to=None, **d)
        if shuffle:
            yield 'shuffled Minibatches(%d)' % b, Minibatches(
                b, True, cut_according_to=None, **d)
    yield 'Undivided', Undivided(**d)


_net = {}


def borrow(name):
    if name not in _net:
        n = fresh(name)
        _net[name] = n, get_params(n)
    n, p = _net[name]
    set_params(n, p)
    return n, p


def same_params(n, p, what):
    q = get_params(n)
    for k in p:
        check(np.array_equal(p[k], q[k]), '{} changed parameter {}', what, k)


def run(case, ctx):
    k = case['k']
    if k == 'eval':
        name, N = case['net'], case['N']
        n, p = borrow(name)
        d = data(name, N, 'c18')
        losses, sc = truth(name, p, d)
        want = dict(losses)
        want.update(sc)
        for what, it in iters(N, d):
            res = evaluate(n, it, scorers(name))
            check(set(res) == set(want), 'evaluate returned {} instead of {}',
                  sorted(res), sorted(want))
            for x in want:
                expect_close(res[x], want[x], '%s of %s over %d sequences, '
                             '%s' % (x, name, N, what), 1e-9)
            res = evaluate(n, it)
            check(set(res) == set(losses), 'evaluate without scorers '
                  'returned {}', sorted(res))
            for x in losses:
                expect_close(res[x], losses[x], '%s of %s, %s' % (x, name,
                                                                what), 1e-9)
            ctx.step(2)
            ctx.state(name, N, what)
        same_params(n, p, 'evaluate')
        ctx.outcome(sorted(want.items()))
        ctx.trace()
    elif k == 'mask':
        T, N = case['T'], case['N']
        spec = NETS['rnn']
        n, p = borrow('rnn')
        x, t = gen('mx', (T, N, 2)), gen('mt', (T, N, 2))
        for bits in itertools.product(case['abc'], repeat=T * (N - 1)):
            m = np.array(list(case['head']) + list(bits), float)
            if not m.any():
                continue
            m = m.reshape(N, T).T.reshape(T, N, 1)
            d = dict(default=x, targets=t, mask=m)
            losses, sc = truth('rnn', p, d)
            for what, it in itertools.chain(
                    iters(N, d, False),
                    [('cut', Minibatches(2, False, **d))] if
                    m.any(axis=0).all() else []):
                res = evaluate(n, it, scorers('rnn'))
                for q, v in list(losses.items()) + list(sc.items()):
                    expect_close(res[q], v, '%s with mask %s, %s' % (
                        q, m[..., 0].tolist(), what), 1e-9)
                # the mask may also be named in the call
                res = evaluate(n, it, [S.MeanSquaredError()],
                               mask_name='mask')
                expect_close(res['MeanSquaredError'],
                             sc['MeanSquaredError'], 'mask_name', 1e-9)
                ctx.step(2)
            ctx.state('mask', m.tobytes())
        same_params(n, p, 'evaluate')
        ctx.trace()
    elif k == 'score':
        score(case, ctx)
    elif k == 'names':
        names(ctx)
    elif k == 'classes':
        classes(ctx)
    elif k == 'aggregate':
        vals = (0.0, 1.0, 2.5)
        for n in (1, 2, 3):
            for ws in itertools.product((1, 2, 5), repeat=n):
                for vs in itertools.product(vals, repeat=n):
                    got = S.Scorer.aggregate(list(zip(ws, vs)))
                    expect_close(got, sum(vs) / float(sum(ws)), 'aggregate')
                    ctx.step()
            ctx.state('agg', n)
        ctx.trace()
    elif k == 'extract':
        extraction(case, ctx)
    elif k == 'cut':
        cut(case, ctx)
    elif k == 'missing':
        missing(case, ctx)
    else:
        for dt in (np.float32, np.float64):
            n = make_net(NETS['ff'], handler=NumpyHandler(dt))
            n.initialize(0.1)
            d = {a: v.astype(dt) for a, v in data('ff', 3, 'x').items()}
            r = extract(n, Minibatches(2, False, **d), ['h.outputs.default'])
            check(r['h.outputs.default'].dtype == dt, 'extracted type is {} '
                  'instead of {}', r['h.outputs.default'].dtype, dt)
            ctx.step()
            ctx.state('dtype', np.dtype(dt).name)
        ctx.trace()


def missing(case, ctx):
    """Data for an input that is not delivered is never made up."""
    name = case['net']
    n, p = borrow(name)
    full = data(name, 3, 'c18')
    for r in range(1, len(full)):
        for names in itertools.combinations(sorted(full), r):
            for b, before in itertools.product((1, 2, 3), (False, True)):
                if before:
                    n.provide_external_data(full)
                    n.forward_pass()
                it = Minibatches(b, False, cut_according_to=None,
                                 **{q: full[q] for q in names})
                for f in (lambda: evaluate(n, it, scorers(name)),
                          lambda: evaluate(n, it)):
                    try:
                        res = f()
                    except Exception:
                        ctx.step()
                        continue
                    raise Violation('evaluating %s on data without %s gives '
                                    '%s' % (name, sorted(set(full) -
                                                         set(names)), res))
            ctx.state('missing', name, names)
    same_params(n, p, 'evaluate')
    ctx.trace()


def score(case, ctx):
    name, shape = case['name'], tuple(case['shape'])
    P, F = shape
    masks = [None] + [np.array(m, float).reshape(P, 1)
                      for m in itertools.product((0, 1), repeat=P)]
    if name == 'Accuracy':
        sc = S.Accuracy()
        if F == 1:
            return
        preds = [np.array(v, float).reshape(shape) for v in
                 itertools.product((0.1, 0.2, 0.7), repeat=P * F)]
        trues = [np.array(v, float).reshape(P, 1) for v in
                 itertools.product(range(F), repeat=P)]
    elif name == 'Accuracy1':
        sc = S.Accuracy()
        if F != 1:
            return
        preds = [np.array(v, float).reshape(shape) for v in
                 itertools.product((0.0, 1.0, 2.0), repeat=P * F)]
        trues = preds
    elif name == 'Hamming':
        preds = [np.array(v, float).reshape(shape) for v in
                 itertools.product((0.0, 0.4, 0.5, 0.9), repeat=P * F)]
        trues = [np.array(v, float).reshape(shape) for v in
                 itertools.product((0, 1), repeat=P * F)]
    else:
        sc = S.MeanSquaredError()
        preds = [np.array(v, float).reshape(shape) for v in
                 itertools.product((-1.0, 0.0, 0.5), repeat=P * F)]
        trues = [np.array(v, float).reshape(shape) for v in
                 itertools.product((0.0, 2.0), repeat=P * F)]
    for m in masks:
        mm = np.ones((P, 1)) if m is None else m
        for p in preds:
            for t in trues:
                keep = p.copy(), t.copy(), mm.copy()
                for th in ((0.5, 0.4) if name == 'Hamming' else (None,)):
                    if name == 'Hamming':
                        sc = S.Hamming(th)
                        want = sum(mm[i, 0] for i in range(P)
                                   for j in range(F)
                                   if (p[i, j] >= th) == (t[i, j] == 1))
                        want /= float(F)
                    elif name == 'MeanSquaredError':
                        want = 0.5 * sum(mm[i, 0] * (p[i, j] - t[i, j]) ** 2
                                         for i in range(P) for j in range(F))
                    elif F > 1:
                        want = 0
                        for i in range(P):
                            # the first of equally large predictions
                            b = max(range(F), key=lambda j: (p[i, j], -j))
                            want += mm[i, 0] * (b == t[i, 0])
                    else:
                        want = sum(mm[i, 0] for i in range(P)
                                   if p[i, 0] == t[i, 0])
                    got = sc(t, p, m) if m is not None else sc(t, p)
                    check(abs(got - want) < 1e-9, '{} of predictions {} for '
                          'targets {} and mask {} is {}, expected {}', name,
                          p.tolist(), t.tolist(),
                          None if m is None else m.tolist(), got, want)
                check(np.array_equal(p, keep[0]) and
                      np.array_equal(t, keep[1]) and
                      np.array_equal(mm, keep[2]), '{} changed its arguments',
                      name)
                ctx.step()
        ctx.state(name, shape, None if m is None else m.tobytes())
    ctx.trace()


def names(ctx):
    """Scorer, call and network may all name output, targets and mask."""
    spec = [inp(default=[2], targets=[2], t2=[2], t3=[2], m1=[1], m2=[1]),
            L('a', 'FullyConnected', O('Input'), size=2),
            L('b', 'FullyConnected', 'a', size=2),
            L('c', 'FullyConnected', 'b', size=2),
            L('se', 'SquaredError', ins={'default': [O('c')],
                                         'targets': [O('Input',
                                                       'targets')]}),
            L('loss', 'Loss', O('se', 'loss'))]
    n = make_net(spec)
    n.initialize(0.0)
    set_params(n, generic_params(n, 'names'))
    T, N = 2, 4
    d = {q: gen(q, (T, N, 2)) for q in ('default', 'targets', 't2', 't3')}
    d['m1'] = (gen('m1', (T, N, 1)) > 0).astype(float)
    d['m2'] = 1 - d['m1']
    for q in ('m1', 'm2'):
        d[q][0, 0] = 1.0
    outs = {}
    n.provide_external_data(d)
    n.forward_pass()
    for q in 'abc':
        outs[q] = n.get(q + '.outputs.default')
    for so, co, no in itertools.product(('', 'a'), ('', 'b'), ('c', 'a')):
        for st, ct in itertools.product(('', 't2', 'targets'),
                                        (None, 't3')):
            for sm, cm in itertools.product(('', 'm1'), (None, '', 'm2')):
                kw = {}
                full = '%s.outputs.default'
                n.output_name = full % no
                if co:
                    kw['out_name'] = full % co
                if ct is not None:
                    kw['targets_name'] = ct
                if cm is not None:
                    kw['mask_name'] = cm
                sc = S.MeanSquaredError(out_name=so and full % so,
                                        targets_name=st, mask_name=sm,
                                        name='sc')
                p = outs[so or co or no]
                t = d[st or ct or 'targets']
                mk = sm or cm
                m = d[mk] if mk else np.ones((T, N, 1))
                want = 0.5 * np.sum(m * (t - p) ** 2) / m.sum()
                for b in (1, 3, 4):
                    r = evaluate(n, Minibatches(
                        b, False, cut_according_to=None, **d), [sc], **kw)
                    expect_close(r['sc'], want, 'score with names %r, call '
                                 '%r, network output %s' % (
                                     (so, st, sm), kw, no), 1e-9)
                    ctx.step()
                ctx.state('names', so, co, no, st, ct, sm, cm)
    check(S.Accuracy().__name__ == 'Accuracy' and
          S.Hamming(name='x').__name__ == 'x' and
          S.Hamming().threshold == 0.5 and
          S.Accuracy().targets_name == 'targets', 'scorer defaults')
    ctx.trace()


def buffers(n, batch=2):
    """Names of all buffers that have time and batch dimensions."""
    out = []
    for l in n.layers:
        for kind in ('inputs', 'outputs', 'internals'):
            for q in n.buffer[l][kind].keys():
                path = '%s.%s.%s' % (l, kind, q)
                if kind == 'internals' and (
                        l in ('do', 'bn', 'out', 'hw') or q.startswith('d')):
                    continue       # not part of an evaluation pass
                v = n.get(path)
                if v.ndim >= 2 and v.shape[1] == batch:
                    out.append(path)
    return out


def usable(n, name, path):
    """Buffers with (time, batch) layout (observed on two batch sizes)."""
    shapes = []
    for N in (2, 3):
        n.provide_external_data(data(name, N, 'probe'))
        n.forward_pass()
        shapes.append(n.get(path).shape)
    return len(shapes[0]) >= 3 and shapes[0][1] == 2 and shapes[1][1] == 3 \
        and shapes[0][:1] == shapes[1][:1]


def extraction(case, ctx):
    name, N = case['net'], case['N']
    n, p = borrow(name)
    d = data(name, N, 'c18')
    n.provide_external_data(data(name, 2, 'probe'))
    n.forward_pass()
    paths = [q for q in buffers(n) if usable(n, name, q)]
    check(len(paths) >= 5, 'only {} buffers found', paths)
    ref = {}
    twin = fresh(name)
    set_params(twin, p)
    for b in range(N):
        twin.provide_external_data({q: v[:, b:b + 1] for q, v in d.items()})
        twin.forward_pass()
        for q in paths:
            ref.setdefault(q, []).append(twin.get(q))
    ref = {q: np.concatenate(v, axis=1) for q, v in ref.items()}
    for what, it in iters(N, d, False):
        for sel in (paths, paths[::-1], paths[:1], paths[2], [paths[-1]]):
            want = [sel] if isinstance(sel, str) else sel
            r = extract(n, it, sel)
            check(set(r) == set(want), 'extract returned {}', sorted(r))
            for q in want:
                expect_close(r[q], ref[q], 'extracted %s of %s, %s' % (
                    q, name, what), 1e-9)
            ctx.step()
        tmp = tempfile.mkdtemp()
        fn = os.path.join(tmp, 'f.h5')
        for sel in (paths, paths[3]):
            extract_and_save(n, it, sel, fn)
            want = [sel] if isinstance(sel, str) else sel
            with h5py.File(fn, 'r') as f:
                check(set(f.keys()) == set(want), 'file has {}',
                      sorted(f.keys()))
                for q in want:
                    expect_close(np.array(f[q]), ref[q], 'saved %s of %s, %s'
                                 % (q, name, what), 1e-9)
            ctx.step()
        os.unlink(fn)
        os.rmdir(tmp)
        ctx.state('extract', name, N, what)
    # only the data itself is needed
    if name != 'rnn':
        only = {'default': d['default']}
        path = {'ff': 'p', 'bn': 'h', 'conv': 'f', 'hw': 'hw'}[name] + \
            '.outputs.default'
        for b, M in itertools.product((1, 2, N), (1, 2, 5, 7)):
            # whatever was processed before
            big = data(name, M, 'before')
            big['default'] = big['default'] * 0 + 50.0
            n.provide_external_data(big)
            n.forward_pass()
            r = extract(n, Minibatches(b, False, **only), [path])
            expect_close(r[path], ref[path], 'extracted without targets',
                         1e-9)
            ctx.step()
    same_params(n, p, 'extract')
    ctx.trace()


def cut(case, ctx):
    """Batches cut to different lengths."""
    T, N = 3, 4
    n, p = borrow('rnn')
    paths = ['h.outputs.default', 'r.outputs.default', 'out.outputs.loss',
             'out.outputs.predictions', 'h.inputs.default']
    x, t = gen('cx', (T, N, 2)), gen('ct', (T, N, 2))
    ref = {}
    twin = fresh('rnn')
    set_params(twin, p)
    for b in range(N):
        twin.provide_external_data(dict(
            default=x[:, b:b + 1], targets=t[:, b:b + 1],
            mask=np.ones((T, 1, 1))))
        twin.forward_pass()
        for q in paths:
            ref.setdefault(q, []).append(twin.get(q)[:T])
    ref = {q: np.concatenate(v, axis=1) for q, v in ref.items()}
    tmp = tempfile.mkdtemp()
    fn = os.path.join(tmp, 'f.h5')
    for rest in itertools.product(range(1, T + 1), repeat=N - 1):
        lens = (case['first'],) + rest
        m = np.zeros((T, N, 1))
        for b, l in enumerate(lens):
            m[:l, b] = 1.0
        for bsz in (1, 2, 3, 4):
            d = dict(default=x, targets=t, mask=m)
            it = Minibatches(bsz, False, **d)
            r = extract(n, it, paths)
            extract_and_save(n, it, paths, fn)
            with h5py.File(fn, 'r') as f:
                s = {q: np.array(f[q]) for q in paths}
            for q in paths:
                ctxrows = q in paths[:2]
                for what, v in (('extracted', r[q]), ('saved', s[q])):
                    check(v.shape[1] == N, '{} {} has {} sequences', what, q,
                          v.shape[1])
                    for b in range(N):
                        lo = b // bsz * bsz
                        cl = max(lens[lo:lo + bsz])
                        expect_close(v[:cl, b], ref[q][:cl, b], '%s %s of '
                                     'sequence %d (lengths %s, batch size '
                                     '%d)' % (what, q, b, lens, bsz), 1e-9)
                        if not ctxrows:
                            check(not v[cl:, b].any(), '{} {}: values after '
                                  'the end of sequence {}', what, q, b)
            ctx.step(2)
        ctx.state('cut', lens)
    if os.path.exists(fn):
        os.unlink(fn)
    os.rmdir(tmp)
    ctx.trace()
