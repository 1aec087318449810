"""C02: a windowed time series says exactly where its windows lie."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_b
from .common import SECOND

F44, F11 = SECOND // 44100, SECOND // 11025
# (sample frequency, sample duration, window duration, step duration)
SCHEMES = [
    (F44, F44, F44 * 2048, F44 * 1024),
    (F11, F11, F11 * 512, F11 * 256),
    (F11, F11, F11 * 512, F11 * 512),
    (F44, F44, SECOND // 2, SECOND // 4),
    (F11, F11, SECOND // 2, SECOND // 4),
    (F11, F11, F44 * 2048, F44 * 1024),
    (10 ** 9, 10 ** 9, 10 * 10 ** 9, 3 * 10 ** 9),
    (10 ** 9, 10 ** 9, 3 * 10 ** 9, 3 * 10 ** 9),
    (SECOND, SECOND, 5 * SECOND, SECOND),
    (7, 7, 35, 14),
    # gaps between the windows
    (10 ** 9, 10 ** 9, 3 * 10 ** 9, 5 * 10 ** 9),
    (F11, F11, F11 * 256, F11 * 400),
    # windows of windows
    (F11 * 256, F11 * 512, F11 * 256 * 8, F11 * 256 * 4),
    (F44 * 1024, F44 * 2048, SECOND, SECOND // 2),
    (10 ** 9, 3 * 10 ** 9, 10 * 10 ** 9, 2 * 10 ** 9),
    (250 * 10 ** 9, 500 * 10 ** 9, 4 * SECOND, 4 * SECOND),
]


def covered(dur, f):
    """how many samples a slice [0, dur) takes; see C01"""
    k = -(-dur // f)
    # an overlap of less than a hundredth of a sample does not count
    if k > 1 and 100 * (dur - (k - 1) * f) < f // 2:
        k -= 1
    return k


def at(w, arr, ix):
    if w.symbolic:
        return arr.at(tuple(ix))
    return int(np.asarray(arr)[tuple(ix)])


def lab(i, j=None):
    return i if j is None else i * 1000003 + j


def judge_dims(w, dims, f, d, W, S, m):
    T = w.z('timeseries.TimeDimension')
    w.check(isinstance(dims[0], T) and isinstance(dims[1], T),
            'windows and samples are both time axes')
    ps = w.ps
    w.check(ps(dims[0].frequency) == S * f,
            'windows are as far apart as their first samples')
    w.check(ps(dims[0].duration) == (W - 1) * f + d,
            'a window lasts from its first sample to the end of its last')
    w.check(w.And(ps(dims[1].frequency) == f, ps(dims[1].duration) == d),
            'samples inside a window keep their frequency and duration')
    w.check(dims[0].size == m, 'the number of windows is known')
    w.check(dims[1].size == W, 'the number of samples per window is known')
    end = w.ite(m > 0, (m - 1) * S * f + (W - 1) * f + d, 0)
    w.check(w.Implies(m > 0, ps(dims[0].end) == end),
            'the series ends where its last window ends')
    w.check(ps(dims[0].span.start) == 0, 'the series starts at zero')
    w.observe('end', ps(dims[0].end))


def content(w, res, n, m, W, S, cols=0, pad=False):
    i, j = w.int('i', 0), w.int('j', 0, W - 1)
    c = w.int('c', 0, cols - 1) if cols else None
    inside = i < m
    if w.symbolic or inside:
        got = at(w, res, [i, j] + ([c] if cols else []))
        p = i * S + j
        if pad:
            w.check(w.Implies(w.And(inside, p >= n), got == 0),
                    'padding is silence')
            inside = w.And(inside, p < n)
        w.check(w.Implies(inside, got == lab(p, c)),
                'window k holds the samples from k * step on')


def flat(w, f, d, wd, sd, how):
    """a one dimensional series"""
    W, S = covered(wd, f), covered(sd, f)
    n = w.int('n', 1, 50000)
    raw = w.labels((n,))
    arr = w.z('core.ArrayWithUnits')(
        raw, [w.z('timeseries.TimeDimension')(w.td(f), w.td(d))])
    TS = w.z('timeseries.TimeSlice')
    ws, ss = TS(w.td(wd)), TS(w.td(sd))
    # the plain slice of that duration has as many samples (see C01)
    if how == 'plain':
        w.assume(n >= W)
        res = arr.sliding_window((ws,), (ss,) if wd != sd else None)
    else:
        left, res = arr.sliding_window_with_leftovers(
            ws, ss if wd != sd else None, dopad=how == 'pad')
        if how == 'rest':
            L = left.shape[0]
            m = res.shape[0]
            used = w.ite(m > 0, m * S, 0)
            w.check(L == w.ite(n - used > 0, n - used, 0),
                    'the leftover starts where the next window would')
            w.check(w.And(left.dimensions[0].frequency == w.td(f),
                          left.dimensions[0].duration == w.td(d)),
                    'the leftover is a time series of the same rate')
            k = w.int('k', 0)
            inside = k < L
            if w.symbolic or inside:
                w.check(w.Implies(inside, at(w, left, [k]) == used + k),
                        'the leftover holds the trailing samples')
            if w.symbolic:
                if bool(m == 0):
                    return
            elif m == 0:
                return
    m = res.shape[0]
    w.observe('windows', m)
    w.check(res.shape[1] == W, 'a window has as many samples as a slice of '
                               'its duration')
    w.check(m >= 1, 'there are windows')
    if how == 'pad':
        w.check((m - 1) * S + max(W, S) >= n, 'all samples are used')
        w.check(w.Or(m == 1, (m - 1) * S < n), 'no window is all padding')
    else:
        w.check(w.And((m - 1) * S + W <= n, m * S + W > n),
                'every window that fits is there')
    judge_dims(w, res.dimensions, f, d, W, S, m)
    content(w, res, n, m, W, S, pad=how == 'pad')


def table(w, f, d, wd, sd, kind):
    """windows over a series of vectors span all of their components"""
    W, S = covered(wd, f), covered(sd, f)
    cols = 4
    n = w.int('n', 1, 50000)
    w.assume(n >= W)
    raw = w.labels((n, cols))
    td = w.z('timeseries.TimeDimension')(w.td(f), w.td(d))
    FB = w.z('spectral.FrequencyBand')
    if kind == 'F':
        other = w.z('spectral.FrequencyDimension')(
            w.z('spectral.LinearScale')(FB(0, 4000), cols))
        full = FB(0, 4000)
    else:
        other = w.z('core.IdentityDimension')()
        full = cols
    arr = w.z('core.ArrayWithUnits')(raw, [td, other])
    TS = w.z('timeseries.TimeSlice')
    if kind in 'FI':
        res = arr.sliding_window((TS(w.td(wd)), full), (TS(w.td(sd)), full))
    else:
        _, res = arr.sliding_window_with_leftovers(TS(w.td(wd)), TS(w.td(sd)))
        if bool(res.shape[0] == 0):
            return
    m = res.shape[0]
    w.check(w.And(res.shape[1] == W, res.shape[2] == cols), 'window shape')
    judge_dims(w, res.dimensions, f, d, W, S, m)
    w.check(type(res.dimensions[2]) is type(other), 'the other axis is kept')
    content(w, res, n, m, W, S, cols)


def audio(w, rate, wd, sd, channels):
    """windowed audio, with and without padding"""
    sr = w.z('timeseries.' + rate)()
    f = w.ps(sr.frequency)
    W, S = covered(wd, f), covered(sd, f)
    n = w.int('n', 1, 200000)
    pad = w.pick('padding', 2) == 1
    raw = w.labels((n, channels) if channels > 1 else (n,))
    a = w.z('timeseries.AudioSamples')(raw, sr)
    scheme = w.z('timeseries.SampleRate')(w.td(sd), w.td(wd))
    res = a.sliding_window(scheme, padding=pad)
    if pad:
        w.check(a.sliding_window(scheme).shape[0] == res.shape[0],
                'padded unless told')
    m = res.shape[0]
    if not pad:
        w.assume(n > W)
    w.check(m >= 1, 'there are windows')
    w.check(res.shape[1] == W, 'a window has as many samples as a slice of '
                               'its duration')
    if pad:
        w.check((m - 1) * S + W >= n, 'all samples are used')
    judge_dims(w, res.dimensions, f, f, W, S, m)
    content(w, res, n, m, W, S, channels if channels > 1 else 0, pad=pad)


def ends(w, f, d):
    """the end of a series is the end of its last sample, also after slicing
    and concatenation"""
    n, k = w.int('n', 1, 10 ** 6), w.int('k', 1, 10 ** 6)
    td = w.z('timeseries.TimeDimension')(w.td(f), w.td(d))
    A = w.z('core.ArrayWithUnits')
    a = A(w.positions(n) if not w.symbolic else w.labels((n,)), [td])
    b = A(w.positions(k) if not w.symbolic else w.labels((k,)), [td])
    e = lambda x: (x - 1) * f + d
    w.check(w.ps(a.dimensions[0].end) == e(n), 'end of a series')
    w.check(w.ps(a.dimensions[0].span.duration) == e(n), 'span of a series')
    c = a.concatenate(b)
    w.check(c.shape[0] == n + k, 'length of a concatenation')
    w.check(w.ps(c.dimensions[0].end) == e(n + k), 'end of a concatenation')
    c = A.concat([a, b, a])
    w.check(w.ps(c.dimensions[0].end) == e(n + k + n), 'end of a concat')
    i = w.int('i', 1)
    w.assume(i < n)
    w.check(w.ps(a[i:].dimensions[0].end) == e(n - i), 'end of a part')
    w.check(w.ps(a.dimensions[0].end) == e(n), 'the source is unchanged')


FLAT = [s + (h,) for s in SCHEMES for h in ('plain', 'rest', 'pad')]
HARNESSES = [
    Harness('flat', flat, world_b, FLAT,
            bounds='1 <= n <= 50000 samples, 16 sampling and windowing '
                   'schemes (gapless, lapped, with gaps, windows of windows)',
            validate=2),
    Harness('table', table, world_b,
            [s + (k,) for s in SCHEMES for k in 'FIL'],
            bounds='as flat, 4 components', validate=2),
    Harness('audio', audio, world_b,
            [(r, wd, sd, c) for r in ('SR44100', 'SR11025', 'SR48000')
             for wd, sd in ((F44 * 2048, F44 * 1024), (SECOND, SECOND // 2),
                            (F11 * 512, F11 * 256), (F11 * 300, F11 * 300))
             for c in (1, 2)],
            bounds='1 <= n <= 200000 samples', validate=2),
    Harness('ends', ends, world_b,
            [(f, d) for f, d in ((F44, F44), (F11 * 256, F11 * 512),
                                 (10 ** 9, 3 * 10 ** 9), (7, 9))],
            bounds='up to 10^6 samples in each of two series',
            validate=2),
]
ASSUMPTIONS = ['int64 time arithmetic does not overflow']
