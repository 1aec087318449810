"""C24: processing nodes compute frame by frame, whatever the chunks."""
import itertools
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a
from .c14 import el, series, chunked

F = 2 * 10 ** 11


def run(make, *streams):
    """the node at work in a real processing graph; the sources take turns"""
    from featureflow.extractor import Node, Graph

    class Source(Node):
        def _process(self, data):
            for c in data:
                yield c

    class Sink(Node):
        def _process(self, data):
            out.append(data)
            yield data
    out = []
    src = [Source() for _ in streams]
    node = make(*src)
    g = {'s%d' % k: s for k, s in enumerate(src)}
    Graph(node=node, sink=Sink(needs=node), **g).process(
        **{'s%d' % k: c for k, c in enumerate(streams)})
    return out


def frames(w, out, units=True):
    """all rows of what came out"""
    r = []
    for o in out:
        if units:
            w.check(isinstance(o, w.z('core.ArrayWithUnits')), 'units')
            d = o.dimensions[0]
            w.check(isinstance(d, w.z('timeseries.TimeDimension')),
                    'a time series')
            w.check(w.And(w.ps(d.frequency) == F, w.ps(d.duration) == F),
                    'at its rate')
            w.check(len(o.dimensions) == o.ndim, 'one dimension per axis')
        for i in range(o.shape[0]):
            r.append([el(w, o, i, *k) for k in np.ndindex(*o.shape[1:])])
    return r


def rows(w, x):
    return [[el(w, x, i, *k) for k in np.ndindex(*x.shape[1:])]
            for i in range(x.shape[0])]


def same_rows(w, got, want, label, tol=None):
    w.check(len(got) == len(want), label + ': how many')
    for a, b in zip(got, want):
        w.check(len(a) == len(b), label + ': how long')
        for p, q in zip(a, b):
            w.check(p == q if tol is None else w.near(p, q, tol), label)


def merge(w, *cuts):
    """side by side, in the order of the sources, frame by frame"""
    xs = [w.array('x%d' % k, (sum(c), k + 1), -100, 100)
          for k, c in enumerate(cuts)]
    out = run(lambda *s: w.z('basic.basic.Merge')(
        needs={'n%d' % k: v for k, v in enumerate(s)}),
        *[chunked(w, x, c) for x, c in zip(xs, cuts)])
    n = min(sum(c) for c in cuts)
    want = [[v for x in xs for v in rows(w, x)[i]] for i in range(n)]
    same_rows(w, frames(w, out), want, 'side by side')


def one_source(w):
    M, N = w.z('basic.basic.Merge'), w.z('basic.basic.Max')
    for n in (0, 1):
        w.check(w.raises(ValueError, lambda: M(
            needs={'n%d' % k: N() for k in range(n)})), 'merging takes two')


def pooled(w, cut, late, n_slices, op):
    """op of the frames of each segment, whichever source comes first"""
    TS, V = w.z('timeseries.TimeSlice'), w.z('timeseries.VariableRateTimeSeries')
    n = sum(cut)
    x = w.array('x', (n, 2), -100, 100)
    segs = []
    for k in range(n_slices):
        a = w.pick('a%d' % k, n)
        b = w.pick('b%d' % k, n) + 1
        w.assume(b <= n - a)
        segs.append((a, b))
    parts = [V([(TS(start=w.td(a * F), duration=w.td(b * F)), np.zeros(0))])
             for a, b in segs]
    if late:
        parts = [V([])] * len(cut) + parts
    P = w.z('basic.basic.Pooled')
    fn = {'max': lambda d, axis: d.max(axis=axis)}.get(
        op, lambda d, axis: d.sum(axis=axis))
    out = run(lambda s, t: P(op=fn, axis=int(op == 'wide'),
                             needs={'a': s, 'b': t}),
              parts, chunked(w, x, cut))
    w.check(len(out) == 1, 'once')
    got = [(w.ps(ts.start), w.ps(ts.duration), d)
           for ts, d in out[0].iter_slices()]
    w.check(len(got) == n_slices, 'one result for each segment')
    segs.sort(key=lambda p: p[0])
    for (s, d, v), (a, b) in zip(got, segs):
        w.check(w.And(s == a * F, d == b * F), 'the segments')
        r = rows(w, x)[a: a + b]
        if op == 'wide':
            w.check(len(v) == b, 'of all frames')
            for p, q in zip(v, r):
                w.check(w.near(p, sum(q)), 'along the axis asked for')
            continue
        for j in range(2):
            col = [q[j] for q in r]
            e = sum(col) if op == 'sum' else col[0]
            if op == 'max':
                for q in col[1:]:
                    e = w.ite(q > e, q, e)
            w.check(w.near(v[j], e), 'of the frames of the segment')


def columns(w, cut, which):
    n = sum(cut)
    x = w.array('x', (n, 3), -100, 100)
    keep = x.copy()
    data = rows(w, x)
    a, b = -1, 2
    if which == 'sum':
        make = lambda s: w.z('basic.basic.Sum')(axis=1, needs=s)
        want = [[sum(r)] for r in data]
    elif which == 'max':
        make = lambda s: w.z('basic.basic.Max')(axis=1, needs=s)
        want = []
        for r in data:
            m = r[0]
            for v in r[1:]:
                m = w.ite(v > m, v, m)
            want.append([m])
    elif which == 'slice':
        a, b = w.pick('a', 3), w.pick('b', 3) + 1
        w.assume(a < b)
        make = lambda s: w.z('basic.basic.Slice')(sl=slice(a, b), needs=s)
        want = [r[a:b] for r in data]
    elif which == 'binarize':
        t = w.real('t', -100, 100)
        make = lambda s: w.z('basic.basic.Binarize')(
            predicate=lambda d: d > t, needs=s)
        want = [[v > t for v in r] for r in data]
    elif which == 'centroid':
        make = lambda s: w.z('spectral.SpectralCentroid')(needs=s)
        want = [[sum(k * w.ite(v < 0, -v, v) for k, v in enumerate(r, 1)) / 6]
                for r in data]
    out = run(make, chunked(w, x, cut))
    got = frames(w, out)
    w.check(w.equal(x, keep), 'the input is not changed')
    if which == 'binarize':
        w.check(len(got) == len(want), 'how many')
        for g, r in zip(got, want):
            for p, q in zip(g, r):
                w.check(w.iff(p, q), 'the predicate of each element')
        return
    same_rows(w, got, want, which, 1e-9)


def weighting(w, shape, axis, form, op):
    """each band is multiplied by its own weight"""
    n = shape[axis]
    Band, Scale = w.z('spectral.FrequencyBand'), w.z('spectral.LinearScale')
    scale = Scale(Band(0, 4000), n)
    x = w.array('x', shape, -100, 100)
    wt = w.array('w', (n,), 1, 10)
    dims = [w.z('core.IdentityDimension')() for _ in shape]
    dims[axis] = w.z('spectral.FrequencyDimension')(scale)
    arr = w.z('core.ArrayWithUnits')(x, dims)

    class Mine(w.z('spectral.weighting.FrequencyWeighting')):
        def _wdata(self, s):
            w.check(len(list(s.center_frequencies)) == n, 'weights for the bands of the array')
            return wt
    f = Mine()
    if op == 'mul':
        got = arr * f if form == 'right' else f * arr
    else:
        got = arr / f if form == 'right' else f / arr
    if form == 'node':
        got, = run(lambda s: w.z('spectral.spectral.FrequencyWeighting')(
            weighting=f, needs=s), [arr])
    w.check(isinstance(got, w.z('core.ArrayWithUnits')), 'units')
    w.check(isinstance(got.dimensions[axis],
                       w.z('spectral.FrequencyDimension')), 'a frequency axis')
    w.check(got.dimensions[axis].scale == scale, 'of the same scale')
    w.check(got.shape == shape, 'shape')
    for i in np.ndindex(*shape):
        v, k, g = el(w, x, *i), el(w, wt, i[axis]), el(w, got, *i)
        if op == 'mul':
            w.check(w.near(g, v * k), 'times the weight of its band')
        elif form == 'right':
            w.check(w.near(g * k, v), 'by the weight of its band')
        else:
            w.assume(w.Or(v > .1, v < -.1))
            w.check(w.near(g * v, k), 'the weight of its band by it')
    ws = f.weights(arr) if axis == len(shape) - 1 else f.weights(scale)
    w.check(w.equal(ws, wt), 'the weights of a scale or an array')


def adaptive(w, sizes, op):
    """all coefficients of a band get its weight"""
    Band = w.z('spectral.FrequencyBand')
    scale = w.z('spectral.ExplicitScale')(
        [Band(100 * k, 100 * (k + 1)) for k in range(len(sizes))])
    T = w.z('timeseries.TimeDimension')
    bands = [w.array('b%d' % k, (2, n), -100, 100)
             for k, n in enumerate(sizes)]
    td = T(w.td(F), w.td(F))
    fa = w.z('spectral.FrequencyAdaptive')(bands, td, scale)
    wt = w.array('w', (len(sizes),), 1, 10)

    class Mine(w.z('spectral.weighting.FrequencyWeighting')):
        def _wdata(self, s):
            w.check(len(s) == len(sizes), 'weights for the bands of the array')
            return wt
    got = fa * Mine() if op == 'mul' else fa / Mine()
    w.check(isinstance(got, w.z('core.ArrayWithUnits')), 'units')
    w.check(got.shape == (2, sum(sizes)), 'shape')
    at = 0
    for k, n in enumerate(sizes):
        for i in range(2):
            for j in range(n):
                v, g = el(w, bands[k], i, j), el(w, got, i, at + j)
                q = el(w, wt, k)
                w.check(w.near(g, v * q) if op == 'mul' else
                        w.near(g * q, v), 'weight of the band')
        at += n


CUTS = [(3,), (1, 2), (2, 1), (1, 1, 1)]
HARNESSES = [
    Harness('merge', merge, world_a,
            [(a, b) for a in CUTS for b in CUTS] +
            [((2,), (1, 2)), ((1, 3), (2,)), ((2, 1), (4,)),
             ((1, 1, 1, 1), (2, 2)), ((1, 2), (3,), (2, 1)),
             ((5,), (2,)), ((2,), (1, 4)), ((5,), (1, 1))],
            bounds='2 or 3 sources of up to 5 frames in up to 4 chunks'),
    Harness('one_source', one_source, world_a, bounds='-'),
    Harness('pooled', pooled, world_a,
            [(c, l, n, op) for c, l, n, op in
             [((3,), False, 2, 'sum'), ((1, 2), True, 2, 'sum'),
              ((2, 1), False, 1, 'max'), ((1, 1, 1), True, 2, 'sum'),
              ((2,), False, 2, 'max'), ((1, 2), False, 1, 'wide')]],
            bounds='up to 3 frames in up to 3 chunks, 2 segments'),
    Harness('columns', columns, world_a,
            [(c, k) for c in [(2,), (1, 1), (2, 1)] for k in
             ('sum', 'max', 'slice', 'binarize', 'centroid')] +
            [((4,), 'centroid'), ((3, 1), 'max')],
            bounds='up to 4 frames of 3 elements in up to 2 chunks'),
    Harness('weighting', weighting, world_a,
            [((2,), 0, 'right', 'mul'), ((2, 3), 1, 'left', 'mul'),
             ((2, 3), 0, 'right', 'mul'), ((2, 2, 2), 1, 'right', 'mul'),
             ((3, 2), 0, 'left', 'mul'), ((2, 3), 1, 'right', 'div'),
             ((2, 3), 0, 'right', 'div'), ((2, 2), 1, 'left', 'div'),
             ((2, 3), 1, 'node', 'mul')],
            bounds='up to 3 bands on any of up to 3 axes'),
    Harness('adaptive', adaptive, world_a,
            [((1, 2), 'mul'), ((2, 1, 3), 'mul'), ((2, 1), 'div')],
            bounds='up to 3 bands of up to 3 coefficients'),
]
ASSUMPTIONS = []
