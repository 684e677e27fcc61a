"""Initializers and modifiers reach exactly the named parameters."""
import copy
import fnmatch
import itertools

import numpy as np

import brainstorm as bs
from brainstorm.handlers import NumpyHandler
from brainstorm.initializers import Identity, InitializationError
from brainstorm.utils import NetworkValidationError
from brainstorm.value_modifiers import GradientModifier, ValueModifier
from vmc.core import Violation, check
from vmc.nets import architecture, make_net

BOUNDS = {
    'quick': 'networks with 4 parametrized layers; all assignments with <=2 '
             'of 11 layer patterns x 42 values (initializer kinds and all '
             'sub-dictionaries with <=2 of 8 view patterns), all with 3 '
             'patterns x 10 values; weight and gradient modifiers: <=2 '
             'patterns x 24 values incl. lists of 3; all pattern strings of '
             'length <=5 over {a,b,_,*} and {a,A,1,*} on 12 layer names each; all ways of '
             'distributing keys over dictionary and keyword arguments',
    'thorough': 'as quick with 3 patterns x 20 values and all '
                'sub-dictionaries with <=3 view patterns, pattern strings up '
                'to length 7',
}

LAYERS = ['ab', 'ac', 'b_1', 'r']
SPEC = [
    ['Input', 'Input', {'out_shapes': {'default': [2]}}, {}],
    ['ab', 'FullyConnected', {'size': 2},
     {'default': [['Input', 'outputs.default']]}],
    ['e', 'Elementwise', {}, {'default': [['ab', 'outputs.default']]}],
    ['ac', 'FullyConnected', {'size': 3},
     {'default': [['e', 'outputs.default']]}],
    ['b_1', 'FullyConnected', {'size': 2},
     {'default': [['ac', 'outputs.default']]}],
    ['r', 'Recurrent', {'size': 2}, {'default': [['b_1',
                                                  'outputs.default']]}],
    ['loss', 'Loss', {}, {'default': [['r', 'outputs.default']]}],
]
VIEWS = {'ab': {'W': (2, 2), 'bias': (2,)},
         'ac': {'W': (3, 2), 'bias': (3,)},
         'b_1': {'W': (2, 3), 'bias': (2,)},
         'r': {'W': (2, 2), 'R': (2, 2), 'bias': (2,)}}
LPAT = ['ab', 'ac', 'r', 'b_1', 'a*', '*', '*b*', '*_*1', 'a', 'default',
        'fallback']
VPAT = ['W', 'bias', '*', 'b*', '*i*s', 'x', 'default', 'fallback']


def subdicts(n):
    out = [{}]
    for r in range(1, n + 1):
        out += [{k: None for k in c}
                for c in itertools.combinations(VPAT, r)]
    return out


# a value is 's' scalar, 'i' Identity, 'l' list fitting 2-vectors, 'm' matrix,
# or a dictionary view pattern -> one of these (filled in round robin)
KINDS = ['s', 'i', 'l', 'm']


def values(n, leaf=False):
    out = ['s', 'i', 'l', 'm'] if not leaf else ['s', 'i']
    for j, d in enumerate(subdicts(n)):
        out.append({k: KINDS[(i + j) % 3] for i, k in enumerate(sorted(d))})
    return out


V2 = values(2)
V3 = values(3)
V1 = ['s', 'i'] + values(1)[4:]                        # 2 + 9
V1Q = [v for v in V1 if v != {'x': 's'} and v != {}]
VT = V1 + [{'W': 's', 'default': 'i'}, {'bias': 'l', 'fallback': 's'},
           {'W': 'i', 'fallback': 's'}, {'default': 'i', 'fallback': 's'},
           {'W': 's', 'bias': 's'}, {'b*': 's', 'W': 'm'},
           {'*i*s': 'l', 'W': 's'}, 'l', 'm']


def leaf_ok(pat, val):
    return not (pat in ('default', 'fallback') and isinstance(val, dict))


def cases(tier):
    th = tier == 'thorough'
    for p in LPAT:
        yield dict(k='init', pats=[p], depth=3 if th else 2)
    for pq in itertools.combinations(LPAT, 2):
        for first in range(len(V2)):
            if leaf_ok(pq[0], V2[first]):
                yield dict(k='init', pats=list(pq), first=first, depth=2)
    for pqr in itertools.combinations(LPAT, 3):
        yield dict(k='init3', pats=list(pqr), th=th)
    for which in ('weight', 'gradient'):
        for p in LPAT:
            yield dict(k='mod', which=which, pats=[p])
        for pq in itertools.combinations(LPAT, 2):
            yield dict(k='mod', which=which, pats=list(pq))
    for n in range(1, 8 if th else 6):
        for a in ('a', 'b', '_', '*'):
            yield dict(k='pattern', first=a, n=n)
        for a in ('a', 'A', '1', '*'):
            yield dict(k='pattern', first=a, n=n, up=True)
    for p in itertools.combinations(LPAT, 3):
        if not any('*' in x for x in p):
            yield dict(k='kwargs', pats=list(p))
    yield dict(k='order')


# ------------------------------------------------------------- the model --

def matches(pat, name):
    return fnmatch.fnmatchcase(name, pat)


def model(refs):
    """{(layer, view): (contents, fallbacks)} and whether some pattern
    matches nothing ('no'), nothing in one of several layers ('maybe')."""
    unmatched = ''
    names = LAYERS + ['Input', 'e', 'loss']
    out = {}
    pats = [p for p in refs if p not in ('default', 'fallback')]
    for p in pats:
        hit = [l for l in names if matches(p, l)]
        if not hit:
            unmatched = 'no'
        if isinstance(refs[p], dict):
            for q in refs[p]:
                if q in ('default', 'fallback'):
                    continue
                ok = [any(matches(q, v) for v in VIEWS.get(l, ()))
                      for l in hit]
                if hit and not any(ok):
                    unmatched = 'no'
                elif not all(ok):
                    unmatched = unmatched or 'maybe'
    top_fb = refs.get('fallback')
    for l in LAYERS:
        hit = [p for p in pats if matches(p, l)]
        for v in VIEWS[l]:
            cont, fb = [], []

            def add(lst, x):
                if x is not None and not any(x is y for y in lst):
                    lst.append(x)
            for p in hit:
                val = refs[p]
                if not isinstance(val, dict):
                    add(cont, val)
                    add(fb, top_fb)
                    continue
                add(fb, val.get('fallback', top_fb))
                sub = [q for q in val if q not in ('default', 'fallback') and
                       matches(q, v)]
                for q in sub:
                    add(cont, val[q])
                if not sub:
                    add(cont, val.get('default'))
            if not hit:
                add(fb, top_fb)
            if not cont:
                add(cont, refs.get('default'))
            out[l, v] = cont, fb
    return out, unmatched


class Val(object):
    """A distinguishable initializer value and its meaning."""
    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        if kind == 's':
            self.obj = 1.5 + n
        elif kind == 'i':
            self.obj = Identity(scale=10. + n, std=0.0)
        elif kind == 'l':
            self.obj = [100. + n, 200. + n]
        else:
            self.obj = np.array([[n + .1, n + .2, n + .3],
                                 [n + .4, n + .5, n + .6]])

    def value(self, shape):
        if self.kind == 's':
            return np.full(shape, self.obj)
        if self.kind == 'i':
            if len(shape) != 2 or shape[0] != shape[1]:
                return None
            return (10. + self.n) * np.eye(*shape)
        a = np.array(self.obj)
        return a if a.shape == tuple(shape) else None


def fill(template, counter):
    if isinstance(template, dict):
        return {k: fill(v, counter) for k, v in template.items()}
    counter[0] += 1
    return Val(template, counter[0])


def unwrap(refs):
    return {k: unwrap(v) if isinstance(v, dict) else v.obj
            for k, v in refs.items()}


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, Identity):
        return type(a) is type(b) and a.scale == b.scale
    return type(a) is type(b) and a == b


def init_case(net, template, ctx, call=None):
    refs = fill(template, [0])
    arg = unwrap(refs)
    keep = copy.deepcopy(arg)
    exp, unmatched = model(refs)
    want = {}
    bad = False
    for (l, v), (cont, fb) in exp.items():
        if len(cont) != 1 or len(fb) > 1:
            bad = True
            break
        val = cont[0].value(VIEWS[l][v])
        if val is None and fb:
            val = fb[0].value(VIEWS[l][v])
        if val is None:
            bad = True
            break
        want[l, v] = val
    err = None
    try:
        (call or (lambda n, a: n.initialize(a)))(net, arg)
    except (NetworkValidationError, InitializationError) as e:
        err = e
    check(same(arg, keep), 'initialize changed its argument {} to {}',
          keep, arg)
    ctx.step()
    if err is not None:
        check(bad or unmatched, 'initialize({}) failed with {}: {}', keep,
              type(err).__name__, err)
        ctx.outcome('error')
        return
    check(not bad and unmatched != 'no', 'initialize({}) must fail: ' +
          ('a pattern matches nothing' if unmatched == 'no' else
           'a parameter has no or several initializers'), keep)
    for (l, v), val in want.items():
        got = net.get('%s.parameters.%s' % (l, v))
        check(np.array_equal(got, val), 'initialize({}) set {}.{} to {} '
              'instead of {}', keep, l, v, got.tolist(), val.tolist())
    ctx.outcome(sorted((k, float(v.sum())) for k, v in want.items()))


CALLS = []
MINE = []          # mutable state of the modifiers the user passed in


class WMod(ValueModifier):
    tag = None

    def __call__(self, handler, view):
        CALLS.append((self.tag, float(view.flat[0]), view.shape, id(self),
                      self))


class GMod(GradientModifier):
    tag = None

    def __call__(self, handler, parameters, gradients):
        check(float(parameters.flat[0]) == float(gradients.flat[0]),
              'a gradient modifier got parameter and gradient of different '
              'views')
        CALLS.append((self.tag, float(parameters.flat[0]), parameters.shape,
                      id(self), self))


def mods(cls, template, counter):
    if isinstance(template, dict):
        return {k: mods(cls, v, counter) for k, v in template.items()}
    out = []
    for _ in range(template):
        m = cls()
        counter[0] += 1
        m.tag = counter[0]
        m.memo = [counter[0]]
        MINE.append(m.memo)
        out.append(m)
    return out[0] if template == 1 else out


MVALS = [1, 2, 3] + [{k: n} for k in VPAT for n in (1, 3)] + \
    [{}, {'W': 2, 'bias': 1}, {'W': 1, 'default': 2}, {'*': 1, 'W': 3},
     {'b*': 2, '*i*s': 2}]


def mod_case(net, which, template, ctx):
    # a gradient modifier list may mix both kinds
    cls = WMod if which == 'weight' else GMod
    del MINE[:]
    refs = mods(cls, template, [0])
    shape = copy.deepcopy(template)
    exp, unmatched = model(refs)
    for i, ((l, v), s) in enumerate(sorted(
            ((l, v), s) for l in LAYERS for v, s in VIEWS[l].items())):
        for cat in ('parameters', 'gradients'):
            net.handler.set_from_numpy(
                net.buffer[l][cat][v], np.full(s, float(i)))
    names = sorted((l, v) for l in LAYERS for v in VIEWS[l])
    has_fb = any(fb for _, fb in exp.values())
    fn = getattr(net, 'set_%s_modifiers' % which)
    err = None
    try:
        fn(refs)
    except (NetworkValidationError, AssertionError) as e:
        err = e
    check(set(refs) == set(shape), 'the argument was changed')
    ctx.step()
    if err is not None:
        check(unmatched or has_fb or 'fallback' in repr(shape),
              'set_{}_modifiers({}) failed with {}: {}',
              which, shape, type(err).__name__, err)
        ctx.outcome('error')
        return
    check(unmatched != 'no', 'set_{}_modifiers({}) must fail: a pattern '
          'matches nothing', which, shape)
    check(not has_fb, 'set_{}_modifiers({}) must fail: fallback', which,
          shape)
    seen_ids = {}
    for rnd in range(2):
        del CALLS[:]
        getattr(net, 'apply_%s_modifiers' % which)()
        per = {}
        for tag, i, shp, ident, obj in CALLS:
            name = names[int(i)]
            check(tuple(shp) == VIEWS[name[0]][name[1]],
                  'modifier got an array of shape {} for {}', shp, name)
            per.setdefault(name, []).append(tag)
            check(seen_ids.setdefault(ident, name) == name, 'one modifier '
                  'object is shared by {} and {}', seen_ids.get(ident), name)
            check(seen_ids.setdefault(id(obj.memo), name) == name and
                  not any(obj.memo is m for m in MINE), 'the state of a '
                  'modifier for {} is shared', name)
        for name, (cont, _) in exp.items():
            want = [[m.tag for m in c] if isinstance(c, list) else [c.tag]
                    for c in cont]
            got = per.get(name, [])
            check(sorted(got) == sorted(t for w in want for t in w),
                  'set_{}_modifiers({}): {}.{} gets modifiers {} instead of '
                  '{}', which, shape, name[0], name[1], got, want)
            for w in want:
                check([t for t in got if t in w] == w,
                      'set_{}_modifiers({}): {}.{} gets modifiers in order '
                      '{} instead of {}', which, shape, name[0], name[1],
                      got, w)
    ctx.outcome(sorted((k, v) for k, v in per.items()))


NAMES = ['a', 'b', 'ab', 'ba', 'aa', 'a_b', 'aab', '_a', 'a_', 'bb_', 'abba',
         'b__b']


NAMES2 = ['a', 'A', 'a1', 'aA', 'A1', 'a1A', 'A1a', '_1', 'a11', 'AA', 'aa',
          'a1_A1']


def name_net(names):
    spec = [['Input', 'Input', {'out_shapes': {'default': [1]}}, {}]]
    src = ['Input', 'outputs.default']
    for n in names:
        spec.append([n, 'FullyConnected', {'size': 1}, {'default': [src]}])
        src = [n, 'outputs.default']
    return make_net(spec)


NET = []


def net():
    if not NET:
        NET.append(make_net(SPEC))
    return NET[0]


def run(case, ctx):
    k = case['k']
    if k == 'init':
        pats = case['pats']
        vals = V3 if case['depth'] == 3 else V2
        if len(pats) == 1:
            pools = [vals]
        else:
            pools = [[V2[case['first']]], vals]
        for vs in itertools.product(*pools):
            if all(leaf_ok(p, v) for p, v in zip(pats, vs)):
                init_case(net(), dict(zip(pats, vs)), ctx)
                ctx.state(pats, vs)
    elif k == 'init3':
        pool = VT if case['th'] else V1Q
        for vs in itertools.product(pool, repeat=3):
            if all(leaf_ok(p, v) for p, v in zip(case['pats'], vs)):
                init_case(net(), dict(zip(case['pats'], vs)), ctx)
                ctx.state(case['pats'], vs)
    elif k == 'mod':
        for vs in itertools.product(MVALS, repeat=len(case['pats'])):
            if all(leaf_ok(p, v) for p, v in zip(case['pats'], vs)):
                mod_case(net(), case['which'], dict(zip(case['pats'], vs)),
                         ctx)
                ctx.state(case['which'], case['pats'], vs)
    elif k == 'pattern':
        abc, use = ('aA1*', NAMES2) if case.get('up') else ('ab_*', NAMES)
        n = name_net(use)
        for rest in itertools.product(abc, repeat=case['n'] - 1):
            pat = case['first'] + ''.join(rest)
            hit = [x for x in use + ['Input'] if matches(pat, x)]
            try:
                n.initialize({pat: 7, 'default': 3})
            except (NetworkValidationError, AssertionError):
                check(not hit, 'pattern {} was rejected but names {}', pat,
                      hit)
                continue
            check(hit, 'pattern {} was accepted but names nothing', pat)
            for x in use:
                got = n.get(x + '.parameters.W')[0, 0]
                check(got == (7 if x in hit else 3), 'pattern {} on layer {}:'
                      ' got {}', pat, x, got)
            ctx.step()
            ctx.state(pat)
            ctx.outcome(hit)
    elif k == 'kwargs':
        for vs in itertools.product(V1[:5], repeat=3):
            tmpl = dict(zip(case['pats'], vs))
            if not all(leaf_ok(p, v) for p, v in tmpl.items()):
                continue
            for split in range(8):
                def call(n, a):
                    names = list(a)
                    kw = {x: a[x] for i, x in enumerate(names)
                          if split >> i & 1}
                    pos = {x: a[x] for x in names if x not in kw}
                    if pos:
                        n.initialize(pos, **kw)
                    else:
                        n.initialize(**kw)
                init_case(net(), tmpl, ctx, call)
        # a plain initializer is the default
        n = net()
        n.initialize(4.5)
        check((n.get('parameters') == 4.5).all(), 'initialize(4.5)')
        n.initialize(Identity(3.0, std=0.0), fallback=2, ac=9)
        check((n.get('ac.parameters.W') == 9).all() and
              (n.get('ab.parameters.bias') == 2).all() and
              np.array_equal(n.get('ab.parameters.W'), 3 * np.eye(2)),
              'initialize(initializer, **kwargs)')
        ctx.state(case['pats'])
    else:
        # the order in which patterns are written does not matter
        n = net()
        for perm in itertools.permutations(
                [('a*', {'W': 's'}), ('ab', {'bias': 'l'}), ('default', 's'),
                 ('r', {'default': 'i', 'fallback': 's'}),
                 ('fallback', 's')]):
            refs = {k2: fill(v, [10 * ord(k2[0])]) for k2, v in perm}
            n.initialize(unwrap(refs))
            got = {(l, v): n.get('%s.parameters.%s' % (l, v)).tolist()
                   for l in LAYERS for v in VIEWS[l]}
            if 'first' in locals():
                check(got == first, 'the order of patterns matters: {}', perm)
            first = got
            ctx.step()
        ctx.state('order')
    ctx.trace()
