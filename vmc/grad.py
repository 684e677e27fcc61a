"""Forward/backward of the real network vs. the reference interpreter."""
import numpy as np

from vmc import ref
from vmc.core import Violation, check
from vmc.nets import (expect_close, find_order, gen, gen_int, generic_params,
                      make_net, maxdiff, set_params)

H = 1e-30
CHUNK = 96


def input_data(spec, T, B, key):
    out = {}
    for name, shape in spec[0][2]['out_shapes'].items():
        full = (T, B) + tuple(shape)
        k = (key, name)
        if name.startswith('cls'):
            out[name] = gen_int(k, full, int(name[3:].split('_')[0]))
        elif name.startswith('bin'):
            out[name] = gen_int(k, full, 2)
        elif name.startswith('m'):
            out[name] = gen(k, full, -0.5, 1.5)
        elif name.startswith('u'):
            out[name] = gen(k, full, 0.1, 0.9)
        else:
            out[name] = gen(k, full)
    return out


def nested(params):
    out = {}
    for (l, p), v in params.items():
        out.setdefault(l, {})[p] = v
    return out


def lift(d):
    return {k: {p: v[None] for p, v in ps.items()} for k, ps in d.items()}


def observe_drops(net, spec):
    drops = {}
    for name, typ, kw, ins in spec:
        if typ != 'Dropout':
            continue
        # an entry that was zero before dropout (rectified) has derivative 0
        y = net.get(name + '.outputs.default')
        drops[name] = (y != 0).astype(float)[None]
    return drops


def compare_forward(net, spec, res, tol=1e-9):
    for (l, path), v in res['vals'].items():
        if path.startswith('parameters.') or l == 'Input':
            continue
        got = net.get('%s.%s' % (l, path))
        exp = v[0].real
        if got.shape != exp.shape and got.ndim == exp.ndim and \
                got.shape[0] == exp.shape[0] + 1:
            got = got[:-1]          # drop the context row
        expect_close(got, exp, 'forward value of %s.%s' % (l, path), tol)


def loss_dict(res):
    out = {k: float(v[0].real) for k, v in res['losses'].items()}
    total = sum(out.values())
    if len(out) == 1:
        return {'total_loss': total}
    out['total_loss'] = total
    return out


def compare_losses(net, res):
    got, exp = net.get_loss_values(), loss_dict(res)
    check(set(got) == set(exp), 'reported losses {} instead of {}',
          sorted(got), sorted(exp))
    for k in exp:
        expect_close(got[k], exp[k], 'loss %s' % k)


def gradient_case(spec, T, B, ctx, key=0, context=False, prelude=(),
                  timings=(1.0, 2.0, 3.0), tol=1e-8):
    net = make_net(spec)
    params = generic_params(net, key, timings)
    set_params(net, params)
    np_params = lift(nested(params))
    context_net = context_ref = None
    for t2, b2 in prelude:
        net.provide_external_data(input_data(spec, t2, b2, (key, 'pre')))
        net.forward_pass(training_pass=False)
        net.backward_pass()
    if context:
        pre = input_data(spec, 2, B, (key, 'context'))
        net.provide_external_data(pre)
        net.forward_pass()
        context_net = net.get_context()
        context_ref = ref.evaluate(
            spec, np_params, {k: v[None] for k, v in pre.items()},
            training=False, order=find_order(net, spec))['context']
    data = input_data(spec, T, B, key)
    net.provide_external_data(data)
    net.forward_pass(training_pass=True, context=context_net)
    order, drops = find_order(net, spec), observe_drops(net, spec)
    inp = {k: v[None] for k, v in data.items()}
    base = ref.evaluate(spec, np_params, inp, True, context_ref, order, drops)
    compare_forward(net, spec, base)
    compare_losses(net, base)
    net.backward_pass()
    ctx.trace()
    # all directions
    slots = []
    for (l, p), v in sorted(params.items()):
        slots += [('p', l, p, i) for i in range(v.size)]
    for name in sorted(data):
        slots += [('x', name, None, i) for i in range(data[name].size)]
    deriv = {}
    for c in range(0, len(slots), CHUNK):
        part = slots[c:c + CHUNK]
        P = {l: dict(d) for l, d in np_params.items()}
        X = dict(inp)
        for n, s in enumerate(part):
            if s[0] == 'p':
                tgt, k = P[s[1]], s[2]
            else:
                tgt, k = X, s[1]
            if tgt[k].shape[0] != len(part) or not np.iscomplexobj(tgt[k]):
                tgt[k] = np.repeat(tgt[k].astype(complex), len(part), 0)
            tgt[k].reshape(len(part), -1)[n, s[3]] += 1j * H
        r = ref.evaluate(spec, P, X, True, context_ref, order, drops)
        d = np.broadcast_to(r['total'].imag / H, (len(part),)) \
            if np.iscomplexobj(r['total']) else np.zeros(len(part))
        for n, s in enumerate(part):
            deriv.setdefault(s[:3], []).append(d[n])
    for (kind, a, b), d in deriv.items():
        if kind == 'p':
            got = net.get('%s.gradients.%s' % (a, b))
            what = 'gradient of parameter %s.%s' % (a, b)
        else:
            got = net.get('Input.output_deltas.%s' % a)
            what = 'delta of input %s' % a
        expect_close(got.ravel(), np.array(d), what, tol)
        ctx.step(len(d))
    # the same gradients again as one flat vector
    total = sum(v.size for v in params.values())
    if total:
        g = net.get('gradients')
        flat = np.concatenate([np.asarray(deriv['p', l, p])
                               for (l, p) in params])
        check(g.size == total, 'flat gradient has {} entries for {} '
              'parameters', g.size, total)
        expect_close(np.sort(g.ravel()), np.sort(flat),
                     'flat gradient vector', tol)
    if not any(t == 'BatchNorm' for _, t, _, _ in spec):
        for (l, p), v in params.items():
            check(np.array_equal(net.get('%s.parameters.%s' % (l, p)), v),
                  'parameter {}.{} was changed by the passes', l, p)
    ctx.state(spec, T, B, context, tuple(prelude))
    ctx.outcome(np.round(base['total'][0].real, 6))
    return net
