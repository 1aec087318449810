"""C25: units follow the axes they describe through array operations."""
import itertools
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a, world_b
from .c14 import el

NAMES = 'xyz'


def dim(w, kind, k, size, tag=''):
    if kind == 't':
        return w.z('timeseries.TimeDimension')(
            w.td(w.int('f%s%d' % (tag, k), 1, 10 ** 15)),
            w.td(w.int('d%s%d' % (tag, k), 1, 10 ** 15)))
    if kind == 'i':
        return w.z('core.IdentityDimension')()
    S = w.z('spectral')
    if kind == 'e':
        bands = S.GeometricScale(100 + k, 4000, .1, 1)
        return S.ExplicitFrequencyDimension(
            S.ExplicitScale(list(bands)), [slice(0, size)])
    return S.FrequencyDimension(S.GeometricScale(100 + k, 4000, .1, size))


def make(w, shape, kinds, name='x', dtype=float):
    x = w.array(name, shape, -100, 100, dtype=dtype)
    dims = [dim(w, q, k, n, name) for k, (q, n) in
            enumerate(zip(kinds, shape))]
    return w.z('core.ArrayWithUnits')(x, dims), x, dims


def same(w, a, b, label):
    w.check(type(a) is type(b), label)
    if hasattr(b, 'duration'):
        w.check(w.And(w.ps(a.frequency) == w.ps(b.frequency),
                      w.ps(a.duration) == w.ps(b.duration)), label)
    elif hasattr(b, 'scale'):
        w.check(a.scale == b.scale, label)


def described(w, out, shape, dims, cls=None):
    """the array has these axes, None for one without units"""
    w.check(isinstance(out, w.z('core.ArrayWithUnits')), 'units')
    w.check(tuple(out.shape) == tuple(shape), 'size')
    w.check(len(out.dimensions) == len(shape), 'one dimension for each axis')
    I = w.z('core.IdentityDimension')()
    for a, b in zip(out.dimensions, dims):
        same(w, a, I if b is None else b, 'units of each axis')


def every(shape):
    return list(np.ndindex(*shape))


def holds(w, out, pairs, label):
    pairs = list(pairs)
    w.check(w.And(True, *[w.near(el(w, out, *i), v) for i, v in pairs]),
            label)


def elementwise(w, shape, kinds, op):
    a, x, dims = make(w, shape, kinds)
    b, y, _ = make(w, shape, kinds, 'y')
    fs = {'add': lambda p, q: p + q, 'subtract': lambda p, q: p - q,
          'multiply': lambda p, q: p * q, 'greater': lambda p, q: p > q,
          'equal': lambda p, q: p == q}
    f = fs[op]
    keep = x.copy()
    for out, other in ((f(a, b), lambda i: el(w, y, *i)),
                       (f(a, 3), lambda i: 3), (f(a, y), lambda i: el(w, y, *i))):
        described(w, out, shape, dims)
        w.check(w.And(True, *[w.iff(el(w, out, *i), f(el(w, x, *i), other(i)))
                              if op in ('greater', 'equal') else
                              w.near(el(w, out, *i), f(el(w, x, *i), other(i)))
                              for i in every(shape)]), 'elements')
    w.check(w.equal(x, keep), 'operands are not changed')
    if op == 'add':
        out = 3 - a
        described(w, out, shape, dims)
        holds(w, out, ((i, 3 - el(w, x, *i)) for i in every(shape)),
              'from the right')
        out = abs(a)
        described(w, out, shape, dims)
        out = a.copy()
        described(w, out, shape, dims)
        out += b
        described(w, out, shape, dims)
        holds(w, out, ((i, el(w, x, *i) + el(w, y, *i))
                       for i in every(shape)), 'in place')


def greatest(w, vs):
    m = vs[0]
    for v in vs[1:]:
        m = w.ite(v > m, v, m)
    return m


def reduction(w, shape, kinds, op, axis, keepdims):
    a, x, dims = make(w, shape, kinds)
    kw = dict(keepdims=True) if keepdims else {}
    out = getattr(a, op)(axis=axis, **kw)
    n = len(shape)
    gone = set(range(n)) if axis is None else set(
        k % n for k in (axis if isinstance(axis, tuple) else (axis,)))
    fold = sum if op == 'sum' else lambda vs: greatest(w, vs)

    def cell(at):
        return fold([el(w, x, *i) for i in every(shape)
                     if all(i[k] == at[k] for k in range(n)
                            if k not in gone)])
    if keepdims:
        want = [1 if k in gone else s for k, s in enumerate(shape)]
        described(w, out, want, [None if k in gone else d
                                 for k, d in enumerate(dims)])
        holds(w, out, ((i, cell(i)) for i in every(want)), op)
        return
    left = [k for k in range(n) if k not in gone]
    if not left:
        w.check(np.ndim(out) == 0, 'a number')
        w.check(w.near(out, cell([0] * n)), op)
        return
    want = [shape[k] for k in left]
    described(w, out, want, [dims[k] for k in left])
    for i in every(want):
        at = [0] * n
        for k, v in zip(left, i):
            at[k] = v
        w.check(w.near(el(w, out, *i), cell(at)), op)


def order(w, shape, kinds, how):
    a, x, dims = make(w, shape, kinds)
    n = len(shape)
    if how == 'T':
        out, perm = a.T, tuple(range(n))[::-1]
    elif how == 'transpose':
        out, perm = a.transpose(), tuple(range(n))[::-1]
    elif how[0] == 'swap':
        out, perm = a.swapaxes(*how[1:]), list(range(n))
        p, q = how[1:]
        perm[p], perm[q] = perm[q], perm[p]
    elif how[0] == 'list':
        out, perm = a.transpose(list(how[1:])), how[1:]
    else:
        out, perm = a.transpose(*how), how
    described(w, out, [shape[k] for k in perm], [dims[k] for k in perm])
    w.check(w.And(True, *[el(w, out, *[i[k] for k in perm]) == el(w, x, *i)
                          for i in every(shape)]), 'elements')


def shapes(w, shape, kinds, new, order='C'):
    """units survive adding and removing axes of size one"""
    a, x, dims = make(w, shape, kinds)
    out = a.squeeze() if new == 'squeeze' else a.reshape(new) \
        if order == 'C' else a.reshape(new, order=order)
    if new == 'squeeze':
        new = tuple(n for n in shape if n != 1)
    new = tuple(new)
    size = int(np.prod(shape))
    open_ = False
    if -1 in new:
        rest = -int(np.prod(new))
        open_ = size // rest != 1
        new = tuple(size // rest if n == -1 else n for n in new)
    want = [None] * len(new)
    core = [k for k, n in enumerate(shape) if n != 1]
    # the axes that are left when all ones are taken out of both
    if new == tuple(shape[k] for k in core):
        want = [dims[k] for k in core]
    elif tuple(n for n in new if n != 1) == shape:
        it = iter(dims)
        want = [None if n == 1 else next(it) for n in new]
    if open_:
        # whether this size is the one of an axis is not looked at
        w.check(tuple(out.shape) == new and len(out.dimensions) == len(new),
                'one dimension for each axis')
    else:
        described(w, out, new, want)
    ways = [sorted(every(s), key=lambda i: tuple(i[::-1]))
            if order == 'F' else every(s) for s in (shape, new)]
    for i, j in zip(*ways):
        w.check(el(w, out, *j) == el(w, x, *i), 'elements in order')


def dots(w, shape, kinds, other, kinds2):
    a, x, dims = make(w, shape, kinds)
    if kinds2:
        S = make(w, other, kinds2, 'y')
        b, y, dims2 = S
    else:
        b = y = w.array('y', other, -100, 100)
        dims2 = [None] * len(other)
    out = a.dot(b)
    last = max(0, len(other) - 2)
    want = list(shape[:-1]) + [n for k, n in enumerate(other) if k != last]
    if not want:
        w.check(w.near(out if w.symbolic and not hasattr(out, 'shape') else
                       el(w, out), sum(el(w, x, i) * el(w, y, i)
                                       for i in range(shape[0]))), 'products')
        return
    described(w, out, want, list(dims[:-1]) + [
        d for k, d in enumerate(dims2) if k != last])
    for i in every(want):
        p, q = i[:len(shape) - 1], i[len(shape) - 1:]
        q1, q2 = q[:last], q[last:]
        w.check(w.near(el(w, out, *i), sum(
            el(w, x, *(p + (k,))) * el(w, y, *(q1 + (k,) + q2))
            for k in range(shape[-1])), 1e-3), 'products')


def joined(w, sizes, kinds, how, match):
    """end to end, when units agree"""
    parts, A = [], w.z('core.ArrayWithUnits')
    rest = (2,) * (len(kinds) - 1)
    axis = how if isinstance(how, int) else 0
    dims = [dim(w, q, k, 2) for k, q in enumerate(kinds)]
    raws = []
    for k, n in enumerate(sizes):
        shape = list((2,) + rest)
        shape[axis] = n
        x = w.array('x%d' % k, tuple(shape), -100, 100)
        ds = list(dims)
        if k and match is not True:
            at = 0 if match is False else match
            d = dims[at]
            f = w.ps(d.frequency) + w.int('df%d' % k, -10, 10)
            g = w.ps(d.duration) + w.int('dd%d' % k, -10, 10)
            w.assume(w.And(f > 0, g > 0))
            w.assume(w.Or(f != w.ps(d.frequency), g != w.ps(d.duration)))
            ds[at] = type(d)(w.td(f), w.td(g))
        parts.append(A(x, ds))
        raws.append(x)
    f = (lambda: parts[0].concatenate(parts[1])) if how == 'method' else \
        (lambda: A.concat(parts, axis=axis))
    if match is not True:
        w.check(w.raises(ValueError, f), 'other units cannot be joined')
        return
    out = f()
    shape = list((2,) + rest)
    shape[axis] = sum(sizes)
    described(w, out, shape, dims)
    at = 0
    for x, n in zip(raws, sizes):
        for i in every(x.shape):
            j = list(i)
            j[axis] += at
            w.check(el(w, out, *j) == el(w, x, *i), 'elements in order')
        at += n


def others(w, shape, kinds):
    """whatever is done, there is one dimension for each axis"""
    a, x, dims = make(w, shape, kinds)
    A = w.z('core.ArrayWithUnits')
    out = a.zeros_like()
    described(w, out, shape, dims)
    w.check(w.And(True, *[el(w, out, *i) == 0 for i in every(shape)]),
            'silence')
    out = A.from_example(x, a)
    described(w, out, shape, dims)
    for f in (lambda: a.flatten(), lambda: a.ravel(),
              lambda: a.max(axis=0), lambda: a[0], lambda: a + a[0],
              lambda: a[:1] + a, lambda: a * x[0]):
        out = f()
        if isinstance(out, A):
            w.check(len(out.dimensions) == out.ndim,
                    'one dimension for each axis')
    flat = a.flatten()
    w.check(tuple(flat.shape) == (int(np.prod(shape)),), 'flat')
    part = flat[:2]
    w.check(el(w, part, 0) == el(w, x, *([0] * len(shape))),
            'a flat array can be sliced')
    w.check(w.raises(ValueError, lambda: A(x, dims[1:])),
            'one dimension for each axis')
    w.check(w.raises(ValueError, lambda: A(x, dims + [None])),
            'one dimension for each axis')


def packed(w, n, kinds):
    """eight bits to a byte along an axis"""
    x = w.array('x', (2, n), 0, 1, dtype=bool)
    dims = [dim(w, q, k, s) for k, (q, s) in enumerate(zip(kinds, (2, n)))]
    out = w.z('core.ArrayWithUnits')(x, dims).packbits(axis=1)
    m = -(-n // 8)
    described(w, out, (2, m), dims)
    for i in range(2):
        for j in range(m):
            v = el(w, out, i, j)
            for k in range(8):
                bit = el(w, x, i, 8 * j + k) if 8 * j + k < n else False
                w.check(w.iff(((v >> (7 - k)) & 1) == 1, bit), 'bits')


TWO = [((2, 3), 'ti'), ((2, 3), 'tf'), ((3, 2), 'tt'), ((1, 3), 'if'),
       ((2, 3), 'te')]
THREE = [((2, 1, 3), 'tif'), ((1, 2, 2), 'itt')]
ONE = [((3,), 't'), ((2,), 'f')]
HARNESSES = [
    Harness('elementwise', elementwise, world_a,
            [s + (o,) for s in ONE + TWO[:3] + THREE[:1]
             for o in ('add', 'subtract', 'multiply', 'greater', 'equal')],
            bounds='up to 3 axes of up to 3 elements'),
    Harness('reduction', reduction, world_a,
            [(s, k, o, ax, kd) for s, k in ONE + TWO + THREE + [
                ((1, 3), 'tf'), ((2, 1), 'et')]
             for o in ('sum', 'max') for kd in (False, True)
             for ax in [None] + list(range(-len(s), len(s))) +
             [c for r in (2, 3) for c in itertools.combinations(
                 range(len(s)), r)] + ([(-1, 0)] if len(s) > 1 else [])],
            bounds='up to 3 axes, all subsets of them'),
    Harness('order', order, world_a,
            [(s, k, h) for s, k in ONE + TWO for h in ('T', 'transpose')] +
            [(s, k, h) for s, k in TWO[:2] for h in (
                (0, 1), (1, 0), ('list', 1, 0), ('swap', 0, 1),
                ('swap', -1, 0))] +
            [(s, k, h) for s, k in THREE for h in
             list(itertools.permutations(range(3))) +
             ['T', ('swap', 0, 2), ('list', 2, 0, 1)]],
            bounds='up to 3 axes, all orders'),
    Harness('shapes', shapes, world_a,
            [(s, k, n) for s, k, ns in (
                ((2, 3), 'tf', [(2, 1, 3), (1, 2, 3), (2, 3, 1), (6,), (3, 2),
                                (2, 3), (1, 2, 1, 3, 1), (2, -1), (-1,),
                                'squeeze', (2, 3, -1), (-1, 2, 3)]),
                ((2, 1, 3), 'tif', [(2, 3), 'squeeze', (6,), (3, 2),
                                    (2, 3, 1)]),
                ((1, 3), 'tf', [(3,), 'squeeze', (1, 1, 3), (3, 1)]),
                ((1, 1), 'tt', ['squeeze', (1,)]),
                ((3,), 't', [(1, 3), (3, 1), (3,), (-1, 1), (-1,)]),
                ((0, 3), 'ti', ['squeeze', (0, 3), (0, 1, 3)]),
                ((1, 0), 'it', ['squeeze', (0,), (1, 0)]),
                ((4,), 'e', [(4, 1), (2, 2)])) for n in ns] +
            [((2, 3), 'tf', (3, 2), 'F'), ((2, 3), 'tf', (6,), 'F'),
             ((6,), 't', (2, 3), 'F')],
            bounds='up to 3 axes, up to 6 elements'),
    Harness('dots', dots, world_a,
            [((2, 3), 'tf', (3,), ''), ((2, 3), 'tf', (3, 4), ''),
             ((2, 3), 'ti', (3, 2), 'if'), ((2, 3), 'ti', (3, 3), 'it'),
             ((3,), 't', (3, 2), 'tf'), ((3,), 't', (3,), ''),
             ((2, 1, 3), 'ttf', (3, 2), 'fi'), ((2, 3), 'tf', (2, 3, 1), 'tft'),
             ((2, 3), 'tf', (3,), 'f')],
            bounds='up to 3 axes of up to 4 elements'),
    Harness('joined', joined, world_a,
            [((2, 3), 'ti', 'method', True), ((1, 2), 't', 'method', True),
             ((2, 1, 1), 'tf', 0, True), ((2, 1), 'tt', 1, True),
             ((0, 2), 'ti', 'method', True), ((2, 2), 'ti', 'method', False),
             ((1, 1, 2), 'tt', 1, False), ((2, 1), 't', 0, False),
             ((2, 1), 'tt', 0, 1), ((1, 1), 'it', 'method', 1),
             ((1, 2, 1), 'it', 0, 1)],
            bounds='2 or 3 arrays of up to 2 axes'),
    Harness('others', others, world_a, TWO + THREE,
            bounds='up to 3 axes of up to 3 elements'),
    Harness('packed', packed, world_a, [(8, 'ti'), (16, 'ti'), (5, 'it')],
            bounds='2 rows of up to 16 bits'),
]
ASSUMPTIONS = []
