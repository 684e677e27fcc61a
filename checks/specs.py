"""Spec building blocks shared by several checks."""


def O(layer, name='default'):
    return [layer, 'outputs.' + name]


def inp(**shapes):
    return ['Input', 'Input', {'out_shapes': {k: list(v) for k, v in
                                              shapes.items()}}, {}]


def L(name, typ, src=None, ins=None, **kw):
    if src is not None:
        ins = {'default': [src if isinstance(src, list) else O(src)]}
    return [name, typ, kw, ins]


ACTS = ['linear', 'sigmoid', 'tanh', 'rel', 'el']

# every one-input layer with a 1-D output, (type, kwargs)
UNARY = [
    ('FullyConnected', dict(size=3, activation='tanh')),
    ('FullyConnected', dict(size=2, activation='rel')),
    ('Recurrent', dict(size=2)),
    ('Lstm', dict(size=2)),
    ('Clockwork', dict(size=3)),
    ('ClockworkLstm', dict(size=3)),
    ('BatchNorm', dict()),
    ('Dropout', dict(drop_prob=0.4)),
    ('Elementwise', dict(activation='sigmoid')),
    ('NoOp', dict()),
    ('Mask', dict()),
    ('DeltasScaling', dict(factor=-0.7)),
    ('L2Decay', dict()),
    ('L1Decay', dict()),
]


def out_of(typ):
    return {'L1Decay': 'loss', 'L2Decay': 'loss', 'SigmoidCE': 'loss',
            'SoftmaxCE': 'loss', 'SquaredError': 'loss'}.get(typ, 'default')


def out_shape(typ, kw, shape):
    """Feature shape of the main output for an input of feature shape."""
    if typ in ('FullyConnected', 'Recurrent', 'Lstm', 'Clockwork',
               'ClockworkLstm'):
        s = kw.get('size', None)
        if s is None:
            return list(shape)
        return [s] if isinstance(s, int) else list(s)
    if typ in ('L1Decay', 'L2Decay', 'BinomialCrossEntropy'):
        return [1]
    if typ == 'SoftmaxCE':
        return list(shape[:-1]) + [1]
    if typ == 'Convolution2D' or typ == 'Pooling2D':
        p = kw.get('padding', 0)
        st = kw.get('stride', (1, 1))
        k = kw['kernel_size']
        return [(shape[0] + 2 * p - k[0]) // st[0] + 1,
                (shape[1] + 2 * p - k[1]) // st[1] + 1,
                kw.get('num_filters', shape[2])]
    return list(shape)


class Builder(object):
    """Appends layers and keeps track of shapes and extra inputs."""

    def __init__(self, **shapes):
        self.inputs = {k: list(v) for k, v in shapes.items()}
        self.layers = []
        self.shape = {('Input', k): list(v) for k, v in shapes.items()}

    def extra(self, name, shape):
        self.inputs[name] = list(shape)
        self.shape['Input', name] = list(shape)
        return O('Input', name)

    def add(self, name, typ, srcs, **kw):
        """srcs: one source [layer, 'outputs.x'] or list of them (concat)"""
        if isinstance(srcs[0], str):
            srcs = [srcs]
        shapes = [self.shape[s[0], s[1].split('.')[1]] for s in srcs]
        shape = list(shapes[0][:-1]) + [sum(s[-1] for s in shapes)]
        ins = {'default': [list(s) for s in srcs]}
        if typ == 'Mask':
            ins['mask'] = [self.extra('m_' + name, [1])]
        if typ in ('SigmoidCE', 'BinomialCrossEntropy'):
            ins['targets'] = [self.extra('bin_' + name, shape)]
        if typ == 'SquaredError':
            ins['targets'] = [self.extra('t_' + name, shape)]
        if typ == 'SoftmaxCE':
            ins['targets'] = [self.extra('cls%d_%s' % (shape[-1], name),
                                         shape[:-1] + [1])]
        self.layers.append([name, typ, kw, ins])
        out = out_of(typ)
        self.shape[name, out] = out_shape(typ, kw, shape)
        return O(name, out)

    def loss(self, name, src, importance=1.0, weighted=True):
        """A loss with a different weight for every entry of src."""
        if weighted:
            sh = self.shape[src[0], src[1].split('.')[1]]
            w = self.extra('m_' + name, sh)
            self.layers.append([name + '_w', 'Mask', {},
                                {'default': [list(src)], 'mask': [w]}])
            src = O(name + '_w')
        self.layers.append([name, 'Loss', dict(importance=importance),
                            {'default': [list(src)]}])

    def spec(self):
        return [['Input', 'Input', {'out_shapes': self.inputs}, {}]] + \
            self.layers
