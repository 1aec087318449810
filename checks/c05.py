"""C05: mixed multi-dimensional indexing selects what numpy selects, and every
axis of the result keeps the meaning of the axis it came from."""
import itertools
import numpy as np
from symz.harness import Harness
from symz.worlds import world_b

NF = 5                      # bands of a frequency axis, 100 Hz each
BANDS = [(100. * i, 100. * (i + 1)) for i in range(NF)]
# (start_hz, stop_hz) of requested bands
REQUESTS = [(120., 180.), (120., 330.), (0., 500.), (250., 1000.), (200., 300.)]
HERTZ = [(150., 350.), (None, 250.), (-150., None)]


def hits(lo, hi):
    ix = [i for i, (a, b) in enumerate(BANDS) if a < hi and b >= lo]
    return ix[0], len(ix)


def labels_of(idx):
    acc = 0
    for i in idx:
        acc = acc * 1000003 + i
    return acc


class Axis(object):
    """what the i-th axis of the source is, and what is picked from it"""


def build(w, kinds):
    shape, dims = [], []
    for a, k in enumerate(kinds):
        if k == 'F':
            shape.append(NF)
            dims.append(w.z('spectral.FrequencyDimension')(
                w.z('spectral.LinearScale')(
                    w.z('spectral.FrequencyBand')(0., 100. * NF), NF)))
        else:
            n = w.int('n%d' % a, 1, 30)
            shape.append(n)
            if k == 'T':
                f = (a + 1) * 10 ** 9
                dims.append(w.z('timeseries.TimeDimension')(
                    w.td(f), w.td(f * (1 + a % 2))))
            elif k == 'N':
                dims.append(None)
            else:
                dims.append(w.z('core.IdentityDimension')())
    return shape, dims


def clip(w, v, n):
    """python's normalisation of a slice bound"""
    v = w.ite(v < 0, v + n, v)
    return w.ite(v < 0, 0, w.ite(v > n, n, v))


def item(w, code, a, kind, n, dim):
    """(the index item, picked positions: None = axis dropped, or
    (count, position function), kind of the resulting axis)"""
    nm = lambda x: '%s%d' % (x, a)
    if code == ':':
        return slice(None), (n, lambda k: k), kind
    if code in 'in':
        i = w.int(nm('i'), -30, 30)
        w.assume(w.And(i >= -n, i < n))
        p = w.ite(i < 0, i + n, i)
        return (w.npint(i) if code == 'n' else i), p, None
    if code in 'sSuv':
        lo, hi = w.int(nm('lo'), -40, 40), w.int(nm('hi'), -40, 40)
        use_lo, use_hi = code in 'sSu', code in 'sSv'
        b = clip(w, lo, n) if use_lo else 0
        e = clip(w, hi, n) if use_hi else n
        if kind == 'F':
            w.assume(b < e)
        c = w.ite(e > b, e - b, 0)
        wrap = w.npint if code == 'S' else (lambda x: x)
        return slice(wrap(lo) if use_lo else None,
                     wrap(hi) if use_hi else None), \
            (c, lambda k: b + k), kind
    if code == 'r':
        # a[lo:0:-1] and a[::-1]
        return slice(None, None, -1), (n, lambda k: n - 1 - k), 'any'
    if code == 'z':
        return slice(None, 0, -1), (n - 1, lambda k: n - 1 - k), 'any'
    if code == 'e':
        return slice(0, None, 2), ((n + 1) // 2, lambda k: 2 * k), 'any'
    if code in 'la':
        i, j = w.int(nm('p'), -30, 30), w.int(nm('q'), -30, 30)
        w.assume(w.And(i >= -n, i < n, j >= -n, j < n))
        pos = lambda k: w.ite(k == 0, w.ite(i < 0, i + n, i),
                              w.ite(j < 0, j + n, j))
        ix = [i, j] if code == 'l' else w.intarray([i, j])
        return ix, (2, pos), 'I'
    if code == 'k':
        return [], (0, lambda k: 0), 'I'
    if code in 'td':
        s, e = w.int(nm('ts'), 0, 60 * 10 ** 9), w.int(nm('te'), 0, 60 * 10 ** 9)
        if code == 't':
            ix = w.z('timeseries.TimeSlice')(
                start=w.td(s), duration=w.td(e))
        else:
            w.assume(e >= s)
            ix = slice(w.td(s), w.td(e))
        # the same slice on an array with this axis only (see C01)
        one = w.z('core.ArrayWithUnits')(w.labels((n,)), [dim])[ix]
        c = one.shape[0]
        if w.symbolic:
            first = one.at((0,))
        else:
            first = int(np.asarray(one)[0]) if c else 0
        return ix, (c, lambda k: first + k), 'T'
    if code in 'fh':
        if code == 'f':
            lo, hi = w.choice(nm('band'), REQUESTS)
            ix = w.z('spectral.FrequencyBand')(lo, hi)
        else:
            lo, hi = w.choice(nm('hz'), HERTZ)
            Hz = w.z('spectral.Hertz')
            ix = slice(None if lo is None else Hz(lo),
                       None if hi is None else Hz(hi))
            lo = 0. if lo is None else (lo if lo >= 0 else 100. * NF + lo)
            hi = 100. * NF if hi is None else hi
        b, c = hits(lo, hi)
        return ix, (c, lambda k: b + k), 'F%d' % b
    raise ValueError(code)


def plan(w, kinds, pattern, shape, dims):
    """index tuple and, per axis of the result, (count, kind, source axis)"""
    real = [c for c in pattern if c not in '+.']
    index, axes = [], []
    where = [None] * len(kinds)
    a = 0

    def take(code):
        nonlocal a
        ix, pick, kind = item(w, code, a, kinds[a], shape[a], dims[a])
        if kind is None:
            where[a] = pick
        else:
            axes.append((pick[0], kind, a))
            where[a] = (len(axes) - 1, pick[1])
        a += 1
        return ix

    for c in pattern:
        if c == '+':
            index.append(None)
            axes.append((1, 'I', None))
        elif c == '.':
            index.append(Ellipsis)
            for _ in range(len(kinds) - len(real)):
                take(':')
        else:
            index.append(take(c))
    while a < len(kinds):
        take(':')
    return index, axes, where


def source(where, k):
    return [p if not isinstance(p, tuple) else p[1](k[p[0]]) for p in where]


def get(w, kinds, pattern):
    shape, dims = build(w, kinds)
    raw = w.labels(shape)
    arr = w.z('core.ArrayWithUnits')(raw, dims)
    index, axes, where = plan(w, kinds, pattern, shape, arr.dimensions)
    res = arr[index[0] if len(index) == 1 else tuple(index)]
    if not axes:
        want = labels_of(source(where, ()))
        got = res.item() if hasattr(res, 'item') else res
        w.check(got == want, 'the selected element')
        return
    w.check(isinstance(res, w.z('core.ArrayWithUnits')),
            'the result has units')
    w.check(res.ndim == len(axes), 'the number of axes')
    w.observe('shape', res.shape)
    for j, (count, kind, a) in enumerate(axes):
        w.check(res.shape[j] == count, 'the size of axis %d' % j)
    k = [w.int('k%d' % j, 0) for j in range(len(axes))]
    inside = w.And(*[kk < c for kk, (c, _, _) in zip(k, axes)])
    if w.symbolic or inside:
        got = res.at(tuple(k)) if w.symbolic else np.asarray(res)[tuple(k)]
        w.check(w.Implies(inside, got == labels_of(source(where, k))),
                'every element is the one numpy selects')
    T, F, I = (w.z('timeseries.TimeDimension'),
               w.z('spectral.FrequencyDimension'),
               w.z('core.IdentityDimension'))
    w.check(len(res.dimensions) == len(axes), 'one dimension per axis')
    for j, (count, kind, a) in enumerate(axes):
        d = res.dimensions[j]
        if kind == 'T':
            w.check(isinstance(d, T), 'time axes stay time axes')
            f = (a + 1) * 10 ** 9
            w.check(w.And(d.frequency == w.td(f),
                          d.duration == w.td(f * (1 + a % 2))),
                    'time axes keep their frequency and duration')
            w.check(d.size == count, 'time axes know their size')
        elif kind[0] == 'F':
            w.check(isinstance(d, F), 'frequency axes stay frequency axes')
            first = where[a][1](0)
            w.check(len(d.scale) == count, 'one band per position')
            w.check(w.And(d.scale.start_hz == first * 100.,
                          d.scale.stop_hz == (first + count) * 100.),
                    'the scale spans the selected bands')
        elif kind in 'IN':
            w.check(isinstance(d, I), 'other axes carry no unit')


def put(w, kinds, pattern):
    """assignment through an index changes exactly the elements it selects"""
    shape, dims = build(w, kinds)
    raw = w.labels(shape)
    arr = w.z('core.ArrayWithUnits')(raw, dims)
    index, axes, where = plan(w, kinds, pattern, shape, arr.dimensions)
    arr[index[0] if len(index) == 1 else tuple(index)] = -1
    k = [w.int('k%d' % j, 0) for j in range(len(axes))]
    for kk, (c, _, _) in zip(k, axes):
        w.assume(kk < c)
    src = source(where, k)
    at = lambda ix: arr.at(tuple(ix)) if w.symbolic \
        else np.asarray(arr)[tuple(ix)]
    w.check(at(src) == -1, 'every selected element is assigned')
    # any element that is not among the selected ones
    p = [w.int('x%d' % a, 0) for a in range(len(kinds))]
    for x, n in zip(p, shape):
        w.assume(x < n)
    sel = []
    for a, q in enumerate(where):
        if not isinstance(q, tuple):
            sel.append(p[a] == q)
            continue
        count, kind, _ = axes[q[0]]
        if pattern_code(kinds, pattern, a) in 'la':
            sel.append(w.Or(p[a] == q[1](0), p[a] == q[1](1)))
        else:
            sel.append(w.And(p[a] >= q[1](0), p[a] < q[1](0) + count))
    selected = w.And(*sel)
    w.check(w.iff(selected, at(p) == -1), 'no other element changes')
    w.check(w.Implies(w.Not(selected), at(p) == labels_of(p)),
            'unselected elements keep their value')


def pattern_code(kinds, pattern, axis):
    real = [c for c in pattern if c not in '+.']
    seq = []
    for c in pattern:
        if c == '.':
            seq += [':'] * (len(kinds) - len(real))
        elif c != '+':
            seq.append(c)
    seq += [':'] * (len(kinds) - len(seq))
    return seq[axis]


CODES = {'T': ':insSuvlatd', 'F': ':insuflah', 'I': ':insSuvla', 'N': ':is'}
STEPPED = {'T': 'rze', 'I': 'rze', 'F': '', 'N': 'r'}


def ok(p):
    adv = [c for c in p if c in 'lak']
    return not adv or (len(adv) == 1 and not any(c in 'in' for c in p))


def patterns():
    out = []
    for k in 'TFI':
        for c in CODES[k] + STEPPED[k]:
            out.append((k, c))
            out.append((k, '+' + c))
        for c in CODES[k]:
            out.append((k, c + '+'))
    out += [('T', '.'), ('T', '.+'), ('T', '+.'), ('F', '+.f'), ('T', 't.'),
            ('T', '.t'), ('T', '++t'), ('F', '.+f')]
    for ks in ('TF', 'TI', 'IT', 'TT', 'TN'):
        for x, y in itertools.product(CODES[ks[0]], CODES[ks[1]]):
            if ok(x + y):
                out.append((ks, x + y))
    for ks in ('TF', 'TT'):
        f = 'f' if ks[1] == 'F' else 't'
        for p in ('t', 'i', 'n', 'l', 'a', '+t', '+i', 't+', '.' + f, '.s', '.i',
                  't.', 'i.', '.+' + f, '+.' + f, 't+' + f, 't.' + f,
                  '.+', '+.', ':+' + f, 'i+' + f, '+:' + f, 'n+:', '+i' + f,
                  't' + f + '+', 't+.', 's+' + f, '.n', 'u' + f + '.'):
            out.append((ks, p))
    for ks in ('ITF', 'TIF', 'TTF'):
        for p in ('i', 's', 't' if ks[0] == 'T' else 'u', 'l', '.f', '.i',
                  'i.f', '.:f', ':.f', '+.f', 's+:f', '.+f', ':+.f', '.s:',
                  'i:f', ':if', '::i', 'iif', 'i:i', ':ii', 'iii', 'sf'[0:1],
                  ':sf', 'si.', 'n.', '.n', 'nn', 'i+.f', '+i.f', '.if',
                  'is', 'isf', 'sif', 'ssf', ':l', '::f', 's:h', 'i.h',
                  'a', '.l', '+l'):
            if ok(p):
                out.append((ks, p))
        t = ks.index('T')
        for tail in ('', '+', '.', 'f', 'i', '+f'):
            if tail == 'f' and t == 0:
                p = 't:f'
            elif tail == '+f' and t == 0:
                p = 't+:f'
            else:
                p = ':' * t + 't' + tail
                if t == 0 and tail == 'i':
                    p = 'ti'
            out.append((ks, p))
    out += [('T', 'k'), ('F', 'k'), ('I', 'k'), ('T', '+k'), ('TF', 'k'),
            ('TF', ':k'), ('TI', 'sk'), ('ITF', '.k'), ('TF', 'kf')]
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


ALL = patterns()


def quick(ps):
    """every one-axis pattern, and a third of the others"""
    return ps


PUT = [(k, p) for k, p in ALL if 'r' not in p and 'z' not in p and 'e' not in p
       and '+' not in p and 'k' not in p and 'N' not in k]
HARNESSES = [
    Harness('get', get, world_b, ALL,
            bounds='1 to 3 axes of symbolic length 1..30 (frequency axes: 5 '
                   'bands), every index kind and the listed combinations with '
                   'Ellipsis and newaxis; symbolic integer, slice and time '
                   'bounds; lists and arrays of two positions', validate=3),
    Harness('put', put, world_b, PUT,
            bounds='as get, without newaxis', validate=3),
]
ASSUMPTIONS = [
    'numpy basic and integer-array indexing is modelled by symz/lnp.py and '
    'compared with real numpy on solver models',
    'where a time slice is used, its extent on one axis is decided by C01',
]
