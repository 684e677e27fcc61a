"""Driving real brainstorm networks from specs (see ref.py)."""
import zlib

import numpy as np

import brainstorm as bs
from brainstorm.handlers import NumpyHandler
from vmc.core import Violation, check


def gen(key, shape, lo=-1.0, hi=1.0):
    """Fixed generic data: a pure function of key and shape."""
    rs = np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7fffffff)
    return rs.uniform(lo, hi, size=tuple(shape))


def gen_int(key, shape, n):
    rs = np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7fffffff)
    return rs.randint(0, n, size=tuple(shape)).astype(float)


def architecture(spec):
    arch = {}
    for name, typ, kw, ins in spec:
        kw = dict(kw)
        if typ == 'Input':
            kw['out_shapes'] = {k: ['T', 'B'] + list(v)
                                for k, v in kw['out_shapes'].items()}
        arch[name] = dict(kw)
        arch[name]['@type'] = typ
        arch[name]['@outgoing_connections'] = {}
    for name, typ, kw, ins in spec:
        for iname, srcs in ins.items():
            for src, path in srcs:
                key = path[8:] if path.startswith('outputs.') else '..' + path
                arch[src]['@outgoing_connections'].setdefault(key, []).append(
                    name + '.' + iname)
    return arch


def make_net(spec, dtype=np.float64, handler=None):
    net = bs.Network.from_architecture(architecture(spec))
    net.set_handler(handler or NumpyHandler(dtype))
    return net


def param_names(net):
    out = []
    for lname in net.layers:
        view = net.buffer[lname]
        if 'parameters' in view and view.parameters is not None:
            for p in view.parameters.keys():
                out.append((lname, p))
    return out


def set_params(net, values):
    for (l, p), v in values.items():
        net.handler.set_from_numpy(net.buffer[l].parameters[p],
                                   np.ascontiguousarray(v))


def get_params(net):
    return {(l, p): net.get('%s.parameters.%s' % (l, p))
            for l, p in param_names(net)}


def generic_params(net, key=0, timings=(1.0, 2.0, 3.0)):
    out = {}
    for l, p in param_names(net):
        shape = net.buffer[l].parameters[p].shape
        typ = type(net.layers[l]).__name__
        if p == 'timing':
            v = np.array([timings[i % len(timings)]
                          for i in range(int(np.prod(shape)))])
            v = v.reshape(shape)
        elif typ.startswith('BatchNorm') and p in ('gamma', 'sigma'):
            v = gen((key, l, p), shape, 0.5, 1.5)
        else:
            v = gen((key, l, p), shape, -0.9, 0.9)
        out[l, p] = v
    return out


def maxdiff(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.0
    bad = ~np.isfinite(a) | ~np.isfinite(b)
    if bad.any():
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        if not same[bad].all():
            return float('inf')
        a, b = np.where(bad, 0, a), np.where(bad, 0, b)
    return float(np.max(np.abs(a - b) / (1.0 + np.abs(b))))


def close(a, b, tol=1e-9):
    return maxdiff(a, b) <= tol


def expect_close(a, b, what, tol=1e-9, **details):
    d = maxdiff(a, b)
    if not d <= tol:
        raise Violation('%s: got %s, expected %s (rel. difference %.3g)' %
                        (what, _short(a), _short(b), d), **details)


def _short(a):
    a = np.asarray(a)
    s = np.array2string(a.ravel()[:8], precision=5)
    return '%s%s' % (a.shape, s)


def find_order(net, spec):
    """Order in which several sources appear in one input (observed)."""
    order = {}
    for name, typ, kw, ins in spec:
        for iname, srcs in ins.items():
            if len(srcs) < 2:
                continue
            inp = net.get('%s.inputs.%s' % (name, iname))
            todo = [tuple(s) for s in srcs]
            found, pos = [], 0
            while todo:
                for s in todo:
                    v = net.get('%s.%s' % s)
                    if s[1].startswith('outputs.'):
                        v = v[:inp.shape[0]]
                    w = v.shape[-1]
                    if pos + w <= inp.shape[-1] and \
                            np.array_equal(inp[..., pos:pos + w], v):
                        found.append(s)
                        todo.remove(s)
                        pos += w
                        break
                else:
                    raise Violation(
                        'input %s of %s is not the concatenation of the '
                        'outputs connected to it' % (iname, name))
            check(pos == inp.shape[-1], 'input {} of {} is wider than its '
                  'sources', iname, name)
            order[name, iname] = found
    return order


def net_input_names(spec):
    return list(spec[0][2]['out_shapes'])
