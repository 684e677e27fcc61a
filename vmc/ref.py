"""Reference interpreter for brainstorm architectures.

Written from the documentation, shares no code with /repo.  Every array has a
leading axis N ("directions"): the interpreter evaluates N copies of the
network at once, and works on complex numbers, so that the derivative of the
total loss with respect to N quantities is obtained error-free by the complex
step method (value at x + i*h, derivative = Im/h with h = 1e-30).

A network is a *spec*: a list of [name, type, kwargs, inputs], the first being
the Input layer with kwargs {'out_shapes': {name: feature shape}}; inputs maps
an input name to a list of [source layer, path] with path 'outputs.<name>' or
'parameters.<name>'.
"""
import numpy as np


def _re(x):
    return x.real


def sigmoid(x):
    return 1.0 / (1.0 + np.exp(-x))


def tanh(x):
    # numpy's complex tanh loses tiny imaginary parts for large |x|
    if np.iscomplexobj(x):
        t = np.tanh(x.real)
        return t + 1j * (x.imag * (1.0 - t * t))
    return np.tanh(x)


def _sig(x):
    if np.iscomplexobj(x):
        s = sigmoid(x.real)
        return s + 1j * (x.imag * s * (1.0 - s))
    return sigmoid(x)


def rel(x):
    return np.where(_re(x) > 0, x, 0)


def el(x):
    neg = np.where(_re(x) > 0, 0, x)
    return np.where(_re(x) > 0, x, np.exp(neg) - 1.0)


ACT = {'linear': lambda x: x, 'sigmoid': _sig, 'tanh': tanh, 'rel': rel,
       'el': el}


def dense(x, W):
    """x (N,T,B,in...), W (N,out,in)  ->  (N,T,B,out)"""
    n, t, b = x.shape[:3]
    flat = x.reshape(n, t * b, -1)
    y = np.matmul(flat, np.swapaxes(W, 1, 2))
    return y.reshape(y.shape[0], t, b, W.shape[1])


def bcast(v, nd):
    """parameter vector (N,k) -> broadcastable against (N, ..., k)"""
    return v.reshape((v.shape[0],) + (1,) * (nd - 2) + (v.shape[-1],))


def conv2d(x, W, bias, stride, padding):
    n, t, b, h, w, c = x.shape
    f, kx, ky = W.shape[1:4]
    N = max(n, W.shape[0])
    p = padding
    xp = np.zeros((n, t, b, h + 2 * p, w + 2 * p, c), x.dtype)
    xp[:, :, :, p:p + h, p:p + w] = x
    oh = (h + 2 * p - kx) // stride[0] + 1
    ow = (w + 2 * p - ky) // stride[1] + 1
    out = np.zeros((N, t, b, oh, ow, f), np.result_type(x, W))
    Wf = W.reshape(W.shape[0], f, -1)
    for i in range(oh):
        for j in range(ow):
            a, e = i * stride[0], j * stride[1]
            patch = xp[:, :, :, a:a + kx, e:e + ky, :]
            patch = patch.reshape(n, t, b, -1)
            out[:, :, :, i, j, :] = dense(patch, Wf)
    return out + bcast(bias, 6)


def pool2d(x, kind, kernel, stride, padding):
    n, t, b, h, w, c = x.shape
    p = padding
    oh = (h + 2 * p - kernel[0]) // stride[0] + 1
    ow = (w + 2 * p - kernel[1]) // stride[1] + 1
    out = np.zeros((n, t, b, oh, ow, c), x.dtype)
    for i in range(oh):
        for j in range(ow):
            r0, r1 = i * stride[0] - p, i * stride[0] - p + kernel[0]
            c0, c1 = j * stride[1] - p, j * stride[1] - p + kernel[1]
            r0, r1 = max(r0, 0), min(r1, h)
            c0, c1 = max(c0, 0), min(c1, w)
            if r0 >= r1 or c0 >= c1:
                continue
            patch = x[:, :, :, r0:r1, c0:c1, :].reshape(n, t, b, -1, c)
            if kind == 'avg':
                out[:, :, :, i, j] = patch.sum(3) / patch.shape[3]
            else:
                k = np.argmax(_re(patch), axis=3)
                out[:, :, :, i, j] = np.take_along_axis(
                    patch, k[:, :, :, None, :], 3)[:, :, :, 0]
    return out


def abs_(x):
    return np.where(_re(x) < 0, -x, x)


def clip(x, lo, hi):
    y = np.where(_re(x) < lo, lo, x)
    return np.where(_re(y) > hi, hi, y)


def softmax(x):
    m = _re(x).max(axis=-1, keepdims=True)
    e = np.exp(x - m)
    return e / e.sum(axis=-1, keepdims=True)


def active(t, timing):
    """timing (N,k) real -> bool (N,1,k)"""
    return (np.fmod(float(t), _re(timing)) == 0)[:, None, :] | (t == 0)


def rnn(x, p, act, ctx, timing=None):
    f = ACT[act]
    a = dense(x, p['W']) + bcast(p['bias'], 4)
    N, T = a.shape[:2]
    size = p['R'].shape[1]
    h = ctx['y'] if ctx else np.zeros((1, x.shape[2], size))
    ys = []
    for t in range(T):
        new = f(a[:, t] + np.matmul(h, np.swapaxes(p['R'], 1, 2)))
        if timing is not None and t > 0:
            new = np.where(active(t, timing), new, h)
        h = new
        ys.append(h)
    ys = np.stack(np.broadcast_arrays(*ys), 1)
    return ys, {'y': h}


def lstm(x, p, act, ctx, timing=None):
    f = ACT[act]
    size = p['Rz'].shape[1]
    pre = {g: dense(x, p['W' + g]) + bcast(p['b' + g], 4) for g in 'zifo'}
    h = ctx['y'] if ctx else np.zeros((1, x.shape[2], size))
    c = ctx['c'] if ctx else np.zeros((1, x.shape[2], size))

    def rec(g, h):
        return np.matmul(h, np.swapaxes(p['R' + g], 1, 2))
    ys = []
    for t in range(x.shape[1]):
        z = f(pre['z'][:, t] + rec('z', h))
        i = _sig(pre['i'][:, t] + rec('i', h) + p['pi'] * c)
        g = _sig(pre['f'][:, t] + rec('f', h) + p['pf'] * c)
        cn = i * z + g * c
        o = _sig(pre['o'][:, t] + rec('o', h) + p['po'] * cn)
        hn = o * f(cn)
        if timing is not None and t > 0:
            on = active(t, timing)
            cn, hn = np.where(on, cn, c), np.where(on, hn, h)
        c, h = cn, hn
        ys.append(h)
    ys = np.stack(np.broadcast_arrays(*ys), 1)
    return ys, {'y': h, 'c': c}


def run_layer(typ, kw, ins, p, training, ctx=None, drop=None):
    """-> (outputs dict, new context, {'stat': new running statistics})"""
    x = ins.get('default')
    for k in ('targets', 'mask'):   # no gradient flows there (documented)
        if k in ins:
            ins[k] = _re(ins[k])
    if typ == 'FullyConnected':
        size = kw.get('size', list(x.shape[3:]))
        size = [size] if isinstance(size, int) else list(size)
        y = ACT[kw.get('activation', 'rel')](dense(x, p['W']) +
                                             bcast(p['bias'], 4))
        return {'default': y.reshape(list(y.shape[:3]) + size)}, None, None
    if typ == 'Recurrent':
        y, c = rnn(x, p, kw.get('activation', 'tanh'), ctx)
        return {'default': y}, c, None
    if typ == 'Clockwork':
        y, c = rnn(x, p, kw.get('activation', 'tanh'), ctx, p['timing'])
        return {'default': y}, c, None
    if typ == 'Lstm':
        y, c = lstm(x, p, kw.get('activation', 'tanh'), ctx)
        return {'default': y}, c, None
    if typ == 'ClockworkLstm':
        y, c = lstm(x, p, kw.get('activation', 'tanh'), ctx, p['timing'])
        return {'default': y}, c, None
    if typ == 'BatchNorm':
        eps, decay = kw.get('epsilon', 1e-5), kw.get('decay', 0.9)
        nd = x.ndim
        ax = tuple(range(1, nd - 1))
        if training:
            mean = x.mean(axis=ax)
            cen = x - bcast(mean, nd)
            sig = np.sqrt((cen * cen).mean(axis=ax) + eps)
            stat = dict(mu=decay * p['mu'] - (1 - decay) * mean,
                        sigma=decay * p['sigma'] + (1 - decay) * sig)
        else:
            cen = x + bcast(p['mu'], nd)
            sig, stat = p['sigma'], None
        y = cen / bcast(sig, nd) * bcast(p['gamma'], nd) + bcast(p['beta'], nd)
        return {'default': y}, None, stat
    if typ == 'Convolution2D':
        y = conv2d(x, p['W'], p['bias'], kw.get('stride', (1, 1)),
                   kw.get('padding', 0))
        return {'default': ACT[kw.get('activation', 'tanh')](y)}, None, None
    if typ == 'Pooling2D':
        return {'default': pool2d(x, kw.get('type', 'max'), kw['kernel_size'],
                                  kw.get('stride', (1, 1)),
                                  kw.get('padding', 0))}, None, None
    if typ == 'Dropout':
        if not training:
            return {'default': x}, None, None
        return {'default': x * drop / (1.0 - kw.get('drop_prob', 0.5))}, \
            None, None
    if typ == 'NoOp':
        return {'default': x}, None, None
    if typ == 'DeltasScaling':      # identity whose derivative is `factor`
        if np.iscomplexobj(x):
            x = x.real + 1j * kw['factor'] * x.imag
        return {'default': x}, None, None
    if typ == 'Elementwise':
        return {'default': ACT[kw.get('activation', 'rel')](x)}, None, None
    if typ == 'Highway':
        return {'default': ins['T'] * ins['H'] + (1 - ins['T']) * ins['x']}, \
            None, None
    if typ == 'Mask':
        m = ins['mask']
        if m.ndim == 4:
            shape = m.shape[:3] + (1,) * (x.ndim - 4) + (m.shape[-1],)
            m = m.reshape(shape)
        return {'default': x * m}, None, None
    if typ == 'Merge':
        a, b = ins['inputs_1'], ins['inputs_2']
        shp = np.broadcast_shapes(a.shape[:-1], b.shape[:-1])
        return {'default': np.concatenate(
            [np.broadcast_to(a, shp + a.shape[-1:]),
             np.broadcast_to(b, shp + b.shape[-1:])], -1)}, None, None
    if typ in ('L1Decay', 'L2Decay'):
        v = abs_(x) if typ == 'L1Decay' else 0.5 * x * x
        v = v.reshape(v.shape[:3] + (-1,)).sum(-1, keepdims=True)
        return {'loss': v}, None, None
    if typ == 'BinomialCrossEntropy':
        t = ins['targets']
        v = -(t * np.log(clip(x, 1e-6, 1)) +
              (1 - t) * np.log(clip(1 - x, 1e-6, 1)))
        return {'default': v.reshape(v.shape[:3] + (-1,)).sum(
            -1, keepdims=True)}, None, None
    if typ == 'SigmoidCE':
        t = ins['targets']
        y = _sig(x)
        v = -(t * np.log(clip(y, 1e-6, 1)) +
              (1 - t) * np.log(clip(1 - y, 1e-6, 1)))
        return {'predictions': _re(y), 'loss': v}, None, None
    if typ == 'SoftmaxCE':
        y = softmax(x)
        t = _re(ins['targets']).astype(int)
        t = np.broadcast_to(t, y.shape[:-1] + (1,))
        v = np.take_along_axis(y, t, -1)
        return {'predictions': _re(y), 'loss': -np.log(clip(v, 1e-6, 1))}, \
            None, None
    if typ == 'SquaredError':
        d = x - ins['targets']
        return {'predictions': _re(x), 'loss': 0.5 * d * d}, None, None
    if typ == 'SquaredDifference':
        d = ins['inputs_1'] - ins['inputs_2']
        return {'default': d * d}, None, None
    if typ == 'Loss':
        bs = x.shape[2] if kw.get('_batched', True) else 1.0
        v = x.reshape(x.shape[0], -1).sum(1)[:, None]
        return {'loss': kw.get('importance', 1.0) * v / bs}, None, None
    raise KeyError(typ)


def evaluate(spec, params, inputs, training=True, context=None, order=None,
             drops=None):
    """params {layer: {name: (N|1, ...)}}; inputs {name: (N|1,T,B,...)}"""
    vals, ctx, stats, losses = {}, {}, {}, {}
    for name, typ, kw, ins in spec:
        if typ == 'Input':
            for k in kw['out_shapes']:
                vals[name, 'outputs.' + k] = inputs[k]
            continue
        for k, v in params.get(name, {}).items():
            vals[name, 'parameters.' + k] = v
        feed = {}
        for iname, srcs in ins.items():
            srcs = [tuple(s) for s in srcs]
            if order and (name, iname) in order:
                srcs = order[name, iname]
            arrs = [vals[s] for s in srcs]
            if len(arrs) == 1:
                feed[iname] = arrs[0]
            else:
                n = max(a.shape[0] for a in arrs)
                feed[iname] = np.concatenate(
                    [np.broadcast_to(a, (n,) + a.shape[1:]) for a in arrs],
                    -1)
        if typ == 'Loss':
            first = ins['default'][0]
            kw = dict(kw, _batched=not is_param(spec, first))
        out, c, stat = run_layer(typ, kw, feed, params.get(name, {}),
                                 training, (context or {}).get(name),
                                 (drops or {}).get(name))
        for k, v in out.items():
            vals[name, 'outputs.' + k] = v
        if c is not None:
            ctx[name] = c
        if stat is not None:
            stats[name] = stat
        if typ == 'Loss':
            losses[name] = out['loss'][:, 0]
    total = sum(losses.values()) if losses else None
    return dict(vals=vals, context=ctx, stats=stats, losses=losses,
                total=total)


def is_param(spec, src):
    """Does this source carry parameter-shaped (not batched) data?"""
    src = tuple(src)
    if src[1].startswith('parameters.'):
        return True
    for name, typ, kw, ins in spec:
        if name == src[0] and typ == 'Merge':
            return is_param(spec, ins['inputs_1'][0])
    return False
