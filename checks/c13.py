"""C13: time slices are intervals."""
from symz.harness import Harness
from symz.worlds import world_b
from .common import SECOND

UNITS = {'ps': 1, 'us': 10 ** 6, 'ms': 10 ** 9, 's': SECOND}
FAR = 2 * 10 ** 17


def moment(w, name, unit, lo=-FAR, hi=FAR):
    u = UNITS[unit]
    v = w.int(name, -(-lo // u), hi // u)
    return v * u, w.td(v, unit)


def make(w, tag, unit):
    s, ts = moment(w, 's' + tag, unit)
    d, td = moment(w, 'd' + tag, unit, 0)
    return s, s + d, w.z('timeseries.TimeSlice')(duration=td, start=ts)


def one(w, u1, u2):
    """a single time slice"""
    TS = w.z('timeseries.TimeSlice')
    s, e, x = make(w, '1', u1)
    ps = w.ps
    w.check(w.And(ps(x.start) == s, ps(x.duration) == e - s, ps(x.end) == e),
            'start, duration and end')
    k, tk = moment(w, 'k', u2)
    y = x + tk
    w.check(w.And(ps(y.start) == s + k, ps(y.duration) == e - s), 'shifted')
    w.check(w.And(ps(x.start) == s, ps(x.end) == e), 'unchanged by shifting')
    y = TS(w.td(e - s)) + w.td(s)
    w.check(w.And(y == x, ps(y.start) == s), 'shifted from the beginning')
    w.check(ps(TS(w.td(e - s)).start) == 0, 'starts at the beginning')
    w.check(w.iff(tk in x, w.And(s < k, k < e)),
            'contains the moments strictly inside')
    w.check(w.And(w.iff(x < tk, s < k), w.iff(x > tk, s > k),
                  w.iff(x <= tk, s <= k), w.iff(x >= tk, s >= k)),
            'order of starts and moments')
    z = TS(start=tk)
    w.check(z.duration is None, 'open ended')
    w.check(w.raises(ValueError, TS, 1), 'durations only')
    w.check(w.raises(ValueError, TS, w.td(1), 1), 'durations only')


def two(w, u1, u2):
    """two time slices, in any units"""
    s, e, x = make(w, '1', u1)
    t, f, y = make(w, '2', u2)
    ps = w.ps
    lo, hi = w.ite(s > t, s, t), w.ite(e < f, e, f)
    for z in (x & y, y & x):
        if w.concretely_bool(lo < hi):
            w.check(w.And(ps(z.start) == lo, ps(z.end) == hi),
                    'the intersection is what both have in common')
        else:
            w.check(ps(z.duration) == 0, 'nothing in common')
    w.check(w.And(w.iff(y in x, w.And(t > s, f < e)),
                  w.iff(x in y, w.And(s > t, e < f))), 'containment')
    same = w.And(s == t, e == f)
    w.check(w.And(w.iff(x == y, same), w.iff(y == x, same),
                  w.iff(x != y, w.Not(same))), 'equality')
    w.check(w.And(w.iff(x < y, s < t), w.iff(x <= y, s <= t),
                  w.iff(x > y, s > t), w.iff(x >= y, s >= t)),
            'ordered by their starts')


def hashes(w, u1, u2):
    w.sym_hash()
    s, e, x = make(w, '1', u1)
    t, f, y = make(w, '2', u2)
    w.assume(w.And(s == t, e == f))
    w.check(w.same_hash(x, y), 'equal slices hash equally')


def cut(w, n):
    """slices between timestamps"""
    TS = w.z('timeseries.TimeSlice')
    t = [w.int('t%d' % i, 0, FAR) for i in range(n)]
    got = TS.slices([w.td(x) for x in t])
    w.check(len(got) == n - 1, 'one slice between neighbours')
    if w.symbolic:
        srt = sorted(t)
    else:
        srt = sorted(t)
    for a, b, z in zip(srt, srt[1:], got):
        w.check(w.And(w.ps(z.start) == a, w.ps(z.end) == b),
                'slices lie between neighbouring moments, in order')


PAIRS = [('ps', 'ps'), ('ps', 's'), ('ms', 'us'), ('s', 'ms')]
HARNESSES = [
    Harness('one', one, world_b, PAIRS, bounds='moments up to 55 hours away, '
            'in four units'),
    Harness('two', two, world_b, PAIRS, bounds='as one'),
    Harness('hashes', hashes, world_b, PAIRS, bounds='as one'),
    Harness('cut', cut, world_b, [(2,), (3,), (4,)],
            bounds='2 to 4 moments, in any order'),
]
ASSUMPTIONS = ['int64 time arithmetic does not overflow']
