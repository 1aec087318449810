"""C01: time-based slicing returns exactly the samples overlapping the slice."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_b
from .common import rate_schemes, SECOND

LIM = 2 ** 57          # picoseconds: 40 hours
N = 6 * 10 ** 9


def setup(w, f, d, n):
    raw = w.positions(n)
    dim = w.z('timeseries.TimeDimension')(w.td(f), w.td(d))
    arr = w.z('core.ArrayWithUnits')(raw, [dim])
    return raw, arr


def judge(w, raw, res, n, f, d, s, e):
    """res must be exactly the samples of [0, n) overlapping [s, e) (times in
    ps); a sample may be left out only when the slice reaches into it by less
    than 1% of a sample period"""
    m = res.shape[0]
    w.observe('size', m)
    i = w.int('i', 0)
    w.assume(i < n)
    k = w.int('k', 0)
    inside = w.And(k < m, k >= 0)
    first = w.position(raw, res, 0) if w.symbolic or m > 0 else 0
    w.observe('first', first)
    included = w.And(m > 0, i >= first, i < first + m)
    w.check(m >= 0, 'size is not negative')
    w.check(m <= n, 'no more samples than there are')
    if w.symbolic or k < m:
        w.check(w.Implies(inside, w.position(raw, res, k) == first + k),
                'the result is a contiguous run of samples')
    overlaps = w.And(i * f < e, i * f + d > s)
    clearly = w.And(100 * i * f < 100 * e - f, i * f + d > s)
    w.check(w.Implies(included, overlaps),
            'every returned sample overlaps the slice')
    w.check(w.Implies(clearly, included),
            'every overlapping sample is returned')
    dim = res.dimensions[0]
    w.check(isinstance(dim, w.z('timeseries.TimeDimension')),
            'the axis is still a time axis')
    w.check(w.And(dim.frequency == w.td(f), dim.duration == w.td(d)),
            'the axis keeps its frequency and duration')
    w.check(dim.size == m, 'the axis knows its new size')


def time_slice(w, f, d):
    n = w.int('n', 1, N)
    w.assume((n + 1) * f + d < LIM)
    raw, arr = setup(w, f, d, n)
    has_dur = w.pick('has_duration', 2)
    has_start = w.pick('has_start', 2)
    s = w.int('start', -LIM, LIM) if has_start else 0
    kw = {}
    if has_start:
        kw['start'] = w.td(s)
    end = n * f + (d - f)
    if has_dur:
        dur = w.int('duration', 0, LIM)
        # a zero duration is an empty interval
        kw['duration'] = w.td(dur)
        e = s + dur
    else:
        e = end
    res = arr[w.z('timeseries.TimeSlice')(**kw)]
    judge(w, raw, res, n, f, d, s, e)


def duration_slice(w, f, d):
    """start:stop given as durations; negative ones count from the end"""
    n = w.int('n', 1, N)
    w.assume((n + 1) * f + d < LIM)
    raw, arr = setup(w, f, d, n)
    end = n * f + (d - f)
    which = w.pick('bounds', 3)
    a = b = None
    s, e = 0, end
    if which in (0, 1):
        a = w.int('start', -LIM // 2, LIM // 2)
        s = w.ite(a < 0, end + a, a)
    if which in (0, 2):
        b = w.int('stop', -LIM // 2, LIM // 2)
        e = w.ite(b < 0, end + b, b)
    sl = slice(None if a is None else w.td(a), None if b is None else w.td(b))
    res = arr[sl]
    judge(w, raw, res, n, f, d, s, e)


def units(w, ua, ub):
    """the slice may be expressed in any unit of time"""
    from symz.td import PS
    f = d = 10 ** 9
    n = w.int('n', 1, 10 ** 6)
    raw, arr = setup(w, f, d, n)
    s = w.int('start', 0, LIM // PS[ua])
    dur = w.int('duration', 0, LIM // PS[ub])
    res = arr[w.z('timeseries.TimeSlice')(
        start=w.td(s, ua), duration=w.td(dur, ub))]
    judge(w, raw, res, n, f, d, s * PS[ua], s * PS[ua] + dur * PS[ub])


def assign(w, f, d):
    """assignment through a time slice changes exactly the selected samples"""
    n = w.int('n', 1, 5000)
    raw = w.labels((n,))
    dim = w.z('timeseries.TimeDimension')(w.td(f), w.td(d))
    arr = w.z('core.ArrayWithUnits')(raw, [dim])
    s = w.int('start', 0, 6000 * f)
    dur = w.int('duration', 0, 6000 * f)
    ts = w.z('timeseries.TimeSlice')(start=w.td(s), duration=w.td(dur))
    sel = arr[ts]
    m = sel.shape[0]
    first = w.position(raw, sel, 0) if w.symbolic else (
        int(np.asarray(sel)[0]) if m else 0)
    arr[ts] = -1
    i = w.int('i', 0)
    w.assume(i < n)
    got = arr.at((i,)) if w.symbolic else int(arr[i])
    inside = w.And(m > 0, i >= first, i < first + m)
    w.check(w.iff(inside, got == -1), 'exactly the selected samples change')
    w.check(w.Implies(w.Not(inside), got == i), 'the others keep their value')


RATES = rate_schemes()
# samples with gaps between them
GAPS = [(10 ** 9, 4 * 10 ** 8), (5 * (SECOND // 11025), SECOND // 11025),
        (11, 3)]
HARNESSES = [
    Harness('time_slice', time_slice, world_b, RATES + GAPS,
            bounds='n samples, 1 <= n, total span and slice bounds below 2^57 '
                   'ps (40 h); start may be negative; 25 concrete rates, 3 of them with gaps'),
    Harness('duration_slice', duration_slice, world_b, RATES + GAPS,
            bounds='as time_slice; python slices with durations or None as '
                   'bounds, negative bounds relative to the end'),
    Harness('units', units, world_b,
            [(a, b) for a in ('h', 'm', 's', 'ms', 'us', 'ns', 'ps')
             for b in ('s', 'ms', 'ps')],
            bounds='every pair of units'),
    Harness('assign', assign, world_b, RATES[:2] + RATES[6:8],
            bounds='1 <= n <= 5000'),
]
ASSUMPTIONS = [
    'duration quotients are correctly rounded doubles (numpy), modelled by '
    'their error band; int64 time arithmetic does not overflow',
    'numpy basic indexing is modelled by symz/lnp.py and compared with real '
    'numpy on solver models',
]
