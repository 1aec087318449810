"""C14: onsets cut a stream into segments that tile it."""
import itertools
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a, world_b
from .c07 import graph


def el(w, a, *i):
    from symz import anp
    return anp.raw(a)[i] if w.symbolic else a[i]


def contents(w, out):
    """all slices of what a node has put out, in order"""
    r = []
    for v in out:
        for ts, d in v.iter_slices():
            w.check(np.asarray(d).size == 0, 'nothing but positions')
            r.append((w.ps(ts.start), w.ps(ts.duration)))
    return r


def tile(w, counts):
    """onsets of each chunk are counted from where the chunk starts"""
    T = w.z('timeseries.TimeDimension')
    Base = w.z('segment.onset.BasePeakPicker')
    f = w.int('f', 1, 10 ** 13)
    dims = [T(w.td(f), w.td(f * 2))]
    chunks, onsets, at = [], [], 0
    moments = [0]
    for k, m in enumerate(counts):
        n = w.int('n%d' % k, 1, 10 ** 4)
        pos = []
        for j in range(m):
            p = w.int('p%d_%d' % (k, j), 0)
            w.assume(p < n)
            if pos:
                w.assume(pos[-1] < p)
            pos.append(p)
        chunks.append(w.z('core.ArrayWithUnits')(w.labels((n,)), dims))
        onsets.append(w.intarray(pos))
        moments += [(at + p) * f for p in pos]
        at = at + n
    moments.append(at * f)

    class Picker(Base):
        def _onset_indices(self, data):
            return onsets.pop(0)
    out = graph(w, lambda src: Picker(needs=src), chunks)
    got = contents(w, out)
    w.check(len(got) == len(moments) - 1, 'one segment between neighbours')
    for (s, d), a, b in zip(got, moments, moments[1:]):
        w.check(s == a, 'a segment starts where the last one ends')
        w.check(d == b - a, 'and lasts to the next onset, or the end')


def series(w, x, f=2 * 10 ** 11):
    T = w.z('timeseries.TimeDimension')
    I = w.z('core.IdentityDimension')
    return w.z('core.ArrayWithUnits')(
        x, [T(w.td(f), w.td(f))] + [I()] * (x.ndim - 1))


def chunked(w, x, sizes):
    return [series(w, x[a: a + n]) for a, n in
            zip(itertools.accumulate((0,) + sizes[:-1]), sizes)]


def peaks(w, sizes, width, agg):
    """an onset just after the detection function has peaked, well above what
    is usual around it"""
    n = sum(sizes)
    x = w.array('x', (n, width), 0, 100)
    f = 2 * 10 ** 11
    kw = {} if agg is None else {'aggregate': getattr(w.np, agg)}
    out = graph(w, lambda src: w.z('segment.onset.MovingAveragePeakPicker')(
        needs=src, **kw), chunked(w, x, sizes))
    got = contents(w, out)
    c = width // 2
    moments = [0]
    for i in range(n):
        row = [el(w, x, i, j) for j in range(width)]
        if agg is None:
            usual = sum(row) / width
        elif agg == 'min':
            usual = row[0]
            for v in row[1:]:
                usual = w.ite(v < usual, v, usual)
        on = w.And(row[c - 1] > row[c - 2], row[c] < row[c - 1],
                   row[c] > usual * 1.25)
        if not w.symbolic:
            # where rounding decides, either is fine
            w.assume(abs(row[c] - usual * 1.25) > 1e-9)
        if w.concretely_bool(on):
            moments.append(i * f)
    moments.append(n * f)
    w.check(got == list(zip(moments, (b - a for a, b in
                                      zip(moments, moments[1:])))),
            'exactly these segments')


def joined(w, out):
    r = []
    for o in out:
        w.check(isinstance(o, w.z('core.ArrayWithUnits')), 'units')
        w.check(len(o.dimensions) == 1 and isinstance(
            o.dimensions[0], w.z('timeseries.TimeDimension')), 'a time series')
        w.check(w.ps(o.dimensions[0].frequency) == 2 * 10 ** 11, 'at its rate')
        r.extend(el(w, o, i) for i in range(len(o)))
    return r


def transience(w, sizes, bins):
    """compared with one frame before, across chunks"""
    n = sum(sizes)
    x = w.array('x', (n, bins), -10, 10)
    keep = x.copy()
    out = graph(w, lambda src: w.z('segment.onset.MeasureOfTransience')(
        needs=src), chunked(w, x, sizes))
    got = joined(w, out)
    w.check(len(got) == n, 'one value for each frame')
    w.check(w.equal(x, keep), 'the spectrum is not changed')
    hfc, en = [], []
    for i in range(n):
        row = [el(w, x, i, j) ** 2 for j in range(2, bins)]
        e, h = sum(row), sum(v * k for k, v in enumerate(row, 3))
        en.append(w.ite(e == 0, 1e-12, e))
        hfc.append(w.ite(h == 0, 1e-12, h))
    for i in range(n):
        j = max(0, i - 1)
        want = (hfc[i] / hfc[j]) * (hfc[i] / en[i])
        if w.symbolic:
            w.check(got[i] == want, 'growth of high frequencies')
        else:
            w.check(abs(got[i] - want) <= 1e-9 * abs(want),
                    'growth of high frequencies')


def flux(w, sizes, bins, norm):
    """distance to one frame before, across chunks"""
    n = sum(sizes)
    x = w.array('x', (n, bins), -10, 10)
    if norm:
        for i in range(n):
            v = el(w, x, i, 0)
            w.assume(w.Or(v == 0, v > .001, v < -.001))
    out = graph(w, lambda src: w.z('segment.onset.Flux')(
        unit_norm=norm, needs=src), chunked(w, x, sizes))
    got = joined(w, out)
    w.check(len(got) == n, 'one value for each frame')
    rows = []
    for i in range(n):
        rows.append([el(w, x, i, j) for j in range(bins)])
    for i in range(n):
        j = max(0, i - 1)
        sq = sum((a - b) ** 2 for a, b in zip(rows[i], rows[j]))
        w.check(got[i] >= 0, 'a distance')
        if not norm:
            w.check(w.near(got[i] * got[i], sq, 1e-6), 'distance of neighbours')
    if norm:
        side = [w.ite(r[0] > 0, 1, w.ite(r[0] < 0, -1, 0)) for r in rows]
        for i in range(n):
            d = side[i] - side[max(0, i - 1)]
            w.check(w.near(got[i], w.ite(d > 0, d, -d)),
                    'distance of unit vectors')


CUTS = [(3,), (1, 2), (2, 1), (1, 1, 1)]
HARNESSES = [
    Harness('tile', tile, world_b,
            [(c,) for n in (1, 2, 3) for c in itertools.product((0, 1, 2),
                                                             repeat=n)
             if sum(c) <= 4],
            bounds='1 to 3 chunks of up to 10^4 frames with up to 2 onsets '
            'each, any hop up to 10 s'),
    Harness('peaks', peaks, world_a,
            [((2,), 4, None), ((1, 1), 4, None), ((1, 1), 5, 'min'),
             ((1,), 6, None)],
            bounds='2 frames in 1 or 2 chunks, windows of 4 to 6'),
    Harness('transience', transience, world_a,
            [(c, 4) for c in CUTS] + [((2,), 5)],
            bounds='3 frames in up to 3 chunks, 4 bins'),
    Harness('flux', flux, world_a, [(c, 2, False) for c in CUTS] +
            [((2,), 1, True), ((1, 1), 1, True)],
            bounds='3 frames in up to 3 chunks, 2 bins'),
]
ASSUMPTIONS = []
