"""C12: time series with a variable rate."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_b
from .common import SECOND

FAR = 2 * 10 ** 17
UNITS = {'ps': 1, 'us': 10 ** 6, 'ms': 10 ** 9, 's': SECOND}


def slices(w, n, units, tag=''):
    TS = w.z('timeseries.TimeSlice')
    out = []
    for i in range(n):
        u = units[i % len(units)]
        k = UNITS[u]
        s = w.int('s%s%d' % (tag, i), 0, FAR // k)
        d = w.int('d%s%d' % (tag, i), 0, FAR // k)
        out.append((s * k, d * k, TS(duration=w.td(d, u), start=w.td(s, u))))
    return out


def data(i, shape):
    """slice data which tells which slice it belongs to"""
    a = np.zeros(shape)
    a[...] = i + 1
    return a


def which(x):
    """the slice this data belongs to"""
    x = np.asarray(x)
    assert x.size and (x == x.reshape(-1)[0]).all(), 'mixed data'
    return int(x.reshape(-1)[0]) - 1


def series(w, sl, shape=(2,), base=0):
    V = w.z('timeseries.VariableRateTimeSeries')
    return V((x[2], data(base + i, shape)) for i, x in enumerate(sl))


def contents(w, v, sl, expected, label):
    """v consists of exactly the slices `expected`, with their data, ordered
    by start; of several slices with one start the first one comes first"""
    expected = list(expected)
    w.check(len(v) == len(expected), label + ': number of slices')
    seen = []
    for ts, d in v.iter_slices():
        i = which(d)
        w.check(i in expected and i not in seen, label + ': which slices')
        w.check(w.And(w.ps(ts.start) == sl[i][0], w.ps(ts.duration) == sl[i][1]),
                label + ': slices keep their data')
        if seen:
            j = seen[-1]
            w.check(w.Or(sl[j][0] < sl[i][0],
                         w.And(sl[j][0] == sl[i][0], j < i)),
                    label + ': in order')
        seen.append(i)
    w.check(len(v.slices) == len(expected) == len(v.slicedata),
            label + ': number of slices')
    return seen


def build(w, n, units):
    """any number of slices in any order"""
    sl = slices(w, n, units)
    v = series(w, sl)
    order = contents(w, v, sl, range(n), 'built')
    ps = w.ps
    if n:
        end = sl[0][0] + sl[0][1]
        start = sl[0][0]
        for s, d, _ in sl[1:]:
            end = w.ite(s + d > end, s + d, end)
            start = w.ite(s < start, s, start)
        w.check(ps(v.end) == end, 'ends with the last of its slices')
        w.check(w.And(ps(v.span.start) == start, ps(v.span.end) == end),
                'spans all of its slices')
    else:
        w.check(ps(v.end) == 0 and ps(v.span.duration) == 0 and
                ps(v.span.start) == 0, 'empty series')
    V = w.z('timeseries.VariableRateTimeSeries')
    contents(w, V(v.raw_data), sl, order, 'wrapped')
    for i in range(n):
        r = v[i]
        w.check(which(r[1]) == order[i] and which(r.slicedata) == order[i] and
                r.timeslice == sl[order[i]][2], 'integer index')
        r = v[np.int64(i - n)]
        w.check(which(r.slicedata) == order[i], 'negative numpy integer index')
    for a, b, c in ((0, 2, 1), (1, None, 1), (None, -1, 1), (None, None, 2)):
        x = v[a:b:c]
        contents(w, x, sl, order[a:b:c], 'slice of integers')
    if n > 1:
        m = np.arange(n) % 2 == 0
        contents(w, v[m], sl, order[::2], 'mask')


def select(w, n, units, u, opened):
    """indexing with a time slice"""
    sl = slices(w, n, units)
    v = series(w, sl)
    TS = w.z('timeseries.TimeSlice')
    k = UNITS[u]
    s = w.int('s', -FAR // k, FAR // k)
    if opened:
        x = TS(start=w.td(s, u))
        lo, hi = s * k, None
    else:
        d = w.int('d', 0, FAR // k)
        x = TS(start=w.td(s, u), duration=w.td(d, u))
        lo, hi = s * k, (s + d) * k
    got = v[x]
    expected = []
    for i, (a, d, _) in enumerate(sl):
        c = a + d > lo
        if hi is not None:
            c = w.And(c, a < hi)
        if w.concretely_bool(c):
            expected.append(i)
    contents(w, got, sl, expected, 'time slice')
    contents(w, v, sl, range(n), 'unchanged by indexing')


def concat(w, n, m, units):
    sl = slices(w, n + m, units)
    a, b = series(w, sl[:n]), series(w, sl[n:], base=n)
    contents(w, a.concat(b), sl, range(n + m), 'concatenated')
    contents(w, a, sl, range(n), 'unchanged by concatenation')


def stored(w, n, units, shape):
    """encoding and decoding"""
    sl = slices(w, n, units)
    v = series(w, sl, shape)
    E = w.z('timeseries.VariableRateTimeSeriesEncoder')()
    D = w.z('timeseries.VariableRateTimeSeriesDecoder')()
    if w.symbolic:
        raw = E._prepare_data(v)
        back = D._wrap_array(raw, None)
    else:
        import io
        back = D(io.BytesIO(b''.join(E._process(v))))
    contents(w, back, sl, range(n), 'decoded')
    w.check(tuple(back.slicedata.shape[1:]) == tuple(shape) and
            back.slicedata.dtype == v.slicedata.dtype, 'shape and type')


MIX = ('s', 'ps', 'ms', 'us')
HARNESSES = [
    Harness('build', build, world_b,
            [(0, ('ps',)), (1, ('ps',)), (2, MIX), (3, ('ps',)), (3, MIX),
             (4, ('ps',))],
            bounds='up to 4 slices, starts and durations up to 55 hours'),
    Harness('select', select, world_b,
            [(n, us, u, o) for n, us in ((0, MIX), (1, MIX), (2, MIX),
                                         (3, ('ps',)))
             for u in ('ps', 's') for o in (False, True)],
            bounds='up to 3 slices, any interval or open ended one'),
    Harness('concat', concat, world_b,
            [(0, 1, MIX), (1, 1, MIX), (2, 1, MIX), (1, 2, MIX), (2, 2, ('ps',))],
            bounds='up to 2 + 2 slices'),
    Harness('stored', stored, world_b,
            [(1, MIX, (2,)), (2, MIX, (3, 2)), (3, ('ps',), (1,))],
            bounds='up to 3 slices'),
]
ASSUMPTIONS = ['int64 picoseconds do not overflow',
               'featureflow stores arrays of int64 and float faithfully '
               '(the replay goes through its bytes)']
