"""C08: sample rates count samples and durations consistently."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_b
from .common import SECOND

RATES = {'SR96000': (96000, 4096, 2048), 'SR48000': (48000, 2048, 1024),
         'SR44100': (44100, 2048, 1024), 'SR22050': (22050, 1024, 512),
         'SR16000': (16000, 512, 256), 'SR11025': (11025, 512, 256)}


def rates(w, name):
    """the six audio sample rates"""
    hz, win, hop = RATES[name]
    T = w.z('timeseries')
    sr = getattr(T, name)()
    ps = w.ps
    f = SECOND // hz
    w.check(sr.samples_per_second == hz and int(sr) == hz, 'samples a second')
    w.check(sr.nyquist == hz // 2, 'nyquist frequency')
    w.check(ps(sr.frequency) == f and ps(sr.duration) == f, 'period')
    w.check(ps(sr.overlap) == 0, 'audio samples do not overlap')
    a, b = tuple(sr)
    w.check(a == sr.frequency and b == sr.duration, 'unpacking')
    h = sr.half_lapped()
    w.check(ps(h.frequency) * 2 == ps(h.duration), 'half lapped')
    td = T.TimeDimension(*sr)
    arr = w.z('core.ArrayWithUnits')(w.labels((10,)), [td])
    w.check(tuple(h.discrete_samples(arr)) == (hop, win),
            'half lapped windows have the suggested size')
    # windows of any size
    n, k = w.int('n', 1, 2 ** 20), w.int('k', 0, 2 ** 20)
    s = sr.windowing_scheme(n, k)
    step = w.ite(k == 0, n, k)
    w.check(w.And(ps(s.duration) == n * f, ps(s.frequency) == step * f),
            'windowing scheme')
    got = s.discrete_samples(arr)
    w.check(w.And(got[0] == step, got[1] == n),
            'a windowing scheme has the sizes it was asked for')
    one = sr.windowing_scheme(n)
    w.check(w.And(ps(one.duration) == n * f, ps(one.frequency) == n * f),
            'windows without an explicit step do not overlap')
    w.check(w.And(sr * n == one, w.Not(w.And(sr == s, n > 1))), 'equality')


def from_hz(w):
    """looking up sample rates"""
    T = w.z('timeseries.samplerate')
    n = w.int('n', 0, 10 ** 7)
    known = [v[0] for v in RATES.values()]
    ok = w.Or(*[n == k for k in known])
    if w.concretely_bool(ok):
        sr = T.audio_sample_rate(n)
        w.check(sr.samples_per_second == n, 'the sample rate asked for')
    else:
        w.check(w.raises(ValueError, T.audio_sample_rate, n),
                'there are no other audio sample rates')
    sr = T.nearest_audio_sample_rate(n)
    d = lambda k: w.ite(n > k, n - k, k - n)
    w.check(w.And(*[d(sr.samples_per_second) <= d(k) for k in known]),
            'the nearest sample rate')


def any_rate(w, lo, hi):
    """sample rates of any number of samples a second"""
    T = w.z('timeseries.samplerate')
    n = w.int('n', lo, hi)
    sr = T.AudioSampleRate(n, 512, 256)
    f = w.ps(sr.frequency)
    w.check(w.And(f * n <= SECOND, (f + 1) * n > SECOND),
            'the period is that of the rate')
    w.check(sr.samples_per_second == n, 'samples a second')


def algebra(w, unit):
    """overlap, products, resampling"""
    T = w.z('timeseries')
    scale = {'ps': 1, 'ms': 10 ** 9, 's': SECOND}[unit]
    f, d = w.int('f', -5, 10 ** 15 // scale), w.int('d', -5, 10 ** 15 // scale)
    tf, tdn = w.td(f, unit), w.td(d, unit)
    if not w.concretely_bool(w.And(f > 0, d > 0)):
        w.check(w.raises(ValueError, T.SampleRate, tf, tdn),
                'periods and durations are positive')
        return
    sr = T.SampleRate(tf, tdn)
    f, d = f * scale, d * scale
    ps = w.ps
    w.check(ps(sr.overlap) == d - f, 'overlap')
    r = sr.overlap_ratio * d - (d - f)
    w.check(w.And(r < 1e-6 * d + 1e-3, r > -1e-6 * d - 1e-3), 'overlap ratio')
    a, b = w.int('a', 1, 5000), w.pick('b', 3) + 1
    p = sr * (a, b)
    w.check(w.And(ps(p.frequency) == a * f, ps(p.duration) == (b - 1) * f + d),
            'b samples, every a samples')
    p = sr * a
    w.check(w.And(ps(p.frequency) == a * f, ps(p.duration) == (a - 1) * f + d),
            'a samples, every a samples')
    p2 = sr * (a,)
    w.check(w.And(p2 == p, p2.frequency == p.frequency), 'one factor')
    w.check(sr == T.SampleRate(w.td(f), w.td(d)), 'equality in other units')
    pair = tuple(sr)
    w.check(len(sr) == len(pair) == 2, 'a pair')
    w.check(w.And(ps(pair[0]) == f, ps(pair[1]) == d), 'of period and duration')
    w.check(w.Not(w.Or(sr == T.SampleRate(w.td(f + 1), w.td(d)),
                       sr == T.SampleRate(w.td(f), w.td(d + 1)))),
            'different sample rates')
    p = sr.resample(w.pick('q', 3) + 1)
    w.observe('resampled', (p.frequency, p.duration))
    q = sr.resample(0.5) if w.concretely_bool(w.And(f > 1, d > 1)) else None
    if q is not None:
        w.check(w.And(ps(q.frequency) * 2 <= f, ps(q.frequency) * 2 >= f - 2,
                      ps(q.duration) * 2 <= d, ps(q.duration) * 2 >= d - 2),
                'resampling')


def multiples(w, unit):
    T = w.z('timeseries')
    scale = {'ps': 1, 'ms': 10 ** 9}[unit]
    f, d = w.int('f', 1, 10 ** 13 // scale), w.int('d', 1, 10 ** 13 // scale)
    sr = T.SampleRate(w.td(f, unit), w.td(d, unit))
    k = w.pick('k', 6) + 1
    p = sr.resample(k)
    w.check(w.And(w.ps(p.frequency) == k * f * scale,
                  w.ps(p.duration) == k * d * scale),
            'resampling by a whole factor')


def discrete(w, f, d, wf, wd):
    """whole numbers of samples per window and step"""
    T = w.z('timeseries')
    arr = w.z('core.ArrayWithUnits')(
        w.labels((4,)), [T.TimeDimension(w.td(f), w.td(d))])
    sr = T.SampleRate(w.td(wf), w.td(wd))
    step, win = sr.discrete_samples(arr)
    w.check(2 * abs(step * f - wf) <= f, 'nearest whole number of steps')
    w.check(2 * abs(win * f + (d - f) - wd) <= f, 'nearest whole window')
    # any multiple of the period
    n, k = w.int('n', 1, 2 ** 16), w.int('k', 1, 2 ** 16)
    sr = T.SampleRate(w.td(f * k), w.td(f * (n - 1) + d))
    got = sr.discrete_samples(arr)
    w.check(w.And(got[0] == k, got[1] == n), 'exact sizes')
    # not quite exact ones
    e = w.int('e')
    w.assume(w.And(e * 4 < f, e * 4 > -f))
    sr = T.SampleRate(w.td(f * k + e), w.td(f * (n - 1) + d + e))
    got = sr.discrete_samples(arr)
    w.check(w.And(got[0] == k, got[1] == n), 'nearest sizes')
    # axes without a frequency are skipped
    arr = w.z('core.ArrayWithUnits')(
        w.labels((4, 4)), [w.z('core.IdentityDimension')(),
                           T.TimeDimension(w.td(f), w.td(d))])
    w.check(tuple(sr.discrete_samples(arr)) == tuple(got)
            if not w.symbolic else
            w.And(*[x == y for x, y in zip(sr.discrete_samples(arr), got)]),
            'time axis of an array')


def half_lapped(w, name):
    """half lapped windows, given in samples at 44.1 kHz, at any rate"""
    hz = RATES[name][0]
    T = w.z('timeseries')
    sr = getattr(T, name)()
    arr = w.z('core.ArrayWithUnits')(
        w.labels((4,)), [T.TimeDimension(*sr)])
    n = w.int('window', 2, 2 ** 15)
    h = w.int('hop', 2, 2 ** 15)
    s = T.HalfLapped(n, h)
    w.assume(w.And(n * hz >= 44100, h * hz >= 44100))
    step, win = s.discrete_samples(arr)
    w.check(w.And(2 * abs(step * 44100 - h * hz) <= 44100 + 2 * h,
                  2 * abs(win * 44100 - n * hz) <= 44100 + 2 * n),
            'the closest number of samples of the same duration')
    if hz == 44100:
        w.check(w.And(step == h, win == n), 'exact at 44.1 kHz')


def chunks(w, name, ch, bits):
    """the size in bytes of chunks of audio"""
    T = w.z('timeseries')
    sr = getattr(T, name)()
    f = w.ps(sr.frequency)
    d = w.int('d', 1, 10 ** 15)
    c = w.z('soundfile.chunksize.ChunkSizeBytes')(
        sr, w.td(d), channels=ch, bit_depth=bits)
    n = w.to_int(c)
    frame = ch * bits // 8
    w.check(n % frame == 0, 'whole frames')
    k = n // frame
    w.check(w.And(k * f <= d, (k + 1) * f > d),
            'as many frames as the duration holds')
    s = w.int('s', 1, 3600)
    c = w.z('soundfile.chunksize.ChunkSizeBytes')(sr, T.Seconds(s), ch, bits)
    n = w.to_int(c)
    want = s * RATES[name][0] * frame
    w.check(w.And(n >= want, n - want <= want // 10000 + frame), 'in seconds')


def durations(w):
    """convenience units"""
    T = w.z('timeseries')
    n = w.int('n', -10 ** 6, 10 ** 6)
    for name, ps in (('Hours', 3600 * SECOND), ('Minutes', 60 * SECOND),
                     ('Seconds', SECOND), ('Milliseconds', 10 ** 9),
                     ('Microseconds', 10 ** 6), ('Nanoseconds', 1000),
                     ('Picoseconds', 1)):
        if name in ('Hours', 'Minutes'):
            w.assume(w.And(n < 2000, n > -2000))
        w.check(w.ps(getattr(T, name)(n)) == n * ps, name)


def silence(w, name, unit):
    """silence lasts as long as asked for"""
    T = w.z('timeseries')
    sr = getattr(T, name)()
    f = w.ps(sr.frequency)
    scale = {'ps': 1, 's': SECOND, 'ms': 10 ** 9}[unit]
    d = w.int('d', 1, 10 ** 14 // scale)
    a = T.AudioSamples.silence(sr, w.td(d, unit))
    n = a.shape[0]
    w.check(w.And(n * f <= d * scale, (n + 1) * f > d * scale),
            'as many samples as fit the duration')
    w.check(a.dimensions[0] == T.TimeDimension(*sr), 'at the sample rate')
    w.check(a.samplerate == sr, 'at the sample rate')
    k = w.int('k', 0)
    w.assume(k < n)
    v = a.at((k,)) if w.symbolic else np.asarray(a)[k]
    w.check(v == 0, 'silent')
    s = T.AudioSamples.silence(sr, w.td(d, unit), channels=2)
    w.check(w.And(s.shape[0] == n, s.shape[1] == 2, s.channels == 2), 'stereo')
    for x in (a, s):
        e = w.int('e%d' % x.ndim, 1, 10 ** 13 // scale)
        l = x.silence_like(w.td(e, unit))
        m = l.shape[0]
        w.check(w.And(m * f <= e * scale, (m + 1) * f > e * scale),
                'length of silence like other audio')
        w.check(w.And(l.channels == x.channels, l.samplerate == sr), 'like')
        q = w.int('q%d' % x.ndim, 0)
        w.assume(q < m)
        ix = (q, 0)[:x.ndim]
        v = l.at(ix) if w.symbolic else np.asarray(l)[ix]
        w.check(v == 0, 'silent')
    x = T.AudioSamples(w.labels((n, 2)), sr)
    p = x.pad_with_silence(w.td(d, unit))
    w.check(w.And(p.shape[0] == 2 * n, p.channels == 2), 'padded length')
    v = p.at((k, 1)) if w.symbolic else np.asarray(p)[k, 1]
    w.check(v == k * 1000003 + 1, 'the audio comes first')
    v = p.at((n + k, 1)) if w.symbolic else np.asarray(p)[n + k, 1]
    w.check(v == 0, 'then silence')


HARNESSES = [
    Harness('rates', rates, world_b, [(r,) for r in RATES],
            bounds='windows and steps of up to 2^20 samples'),
    Harness('from_hz', from_hz, world_b,
            bounds='any number of samples a second up to 10^7'),
    Harness('any_rate', any_rate, world_b,
            [(1, 400), (8000, 8100), (44050, 44150),
             (191900, 192000)],
            bounds='1 to 400 samples a second and around common rates'),
    Harness('algebra', algebra, world_b, [('ps',), ('ms',), ('s',)],
            bounds='periods and durations up to 1000 s'),
    Harness('multiples', multiples, world_b, [('ps',), ('ms',)],
            bounds='periods and durations up to 10 s, factors up to 6'),
    Harness('discrete', discrete, world_b,
            [(f, d, a * f + x, b * f + d - f + y)
             for f, d in ((SECOND // 44100,) * 2, (SECOND // 11025,) * 2,
                          (SECOND // 11025 * 256, SECOND // 11025 * 512),
                          (10 ** 9, 3 * 10 ** 9))
             for a, b, x, y in ((1, 1, 0, 0), (256, 512, 7, -9),
                                (512, 512, 0, 0))],
            bounds='windows and steps of up to 2^16 samples'),
    Harness('half_lapped', half_lapped, world_b, [(r,) for r in RATES],
            bounds='windows and steps of up to 2^15 samples'),
    Harness('chunks', chunks, world_b,
            [(r, c, b) for r in RATES for c, b in ((2, 16), (1, 16), (2, 24),
                                                  (6, 32))],
            bounds='durations up to 1000 s'),
    Harness('durations', durations, world_b, bounds='up to 10^6 units'),
    Harness('silence', silence, world_b,
            [(r, u) for r in RATES for u in ('ps', 's', 'ms')],
            bounds='durations up to 100 s'),
]
ASSUMPTIONS = ['int64 time arithmetic does not overflow']
