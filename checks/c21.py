"""C21: sounds are as long as asked for, and audio keeps its rate."""
import math
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a, world_b
from .common import SECOND
from .c14 import el
from .c20 import RATES, period, cells, close

MINUTE = 60 * 10 ** 12


def many(w, out, f, dur, label='as many samples as fit'):
    n = out.shape[0]
    w.check(w.And(n * f <= dur, dur < (n + 1) * f), label)
    return n


def audio(w, out, rate):
    w.check(isinstance(out, w.z('timeseries.AudioSamples')), 'audio')
    w.check(type(out.samplerate).__name__ == rate, 'the sample rate')
    w.check(len(out.dimensions) == out.ndim, 'one dimension for each axis')


def sines(w, rate, freqs, kind):
    f = period(w, rate)
    dur = w.int('duration', 0, 5 * f)
    kw = {} if freqs is None else dict(
        freqs_in_hz=np.array(freqs) if kind == 'array' else list(freqs))
    out = w.z('synthesize.SineSynthesizer')(
        w.z('timeseries.' + rate)()).synthesize(w.td(dur), **kw)
    n = many(w, out, f, dur)
    audio(w, out, rate)
    sr = int(w.z('timeseries.' + rate)())
    freqs = [440.] if freqs is None else freqs
    w.check(w.And(True, *[w.near(el(w, out, i), sum(
        math.sin(2 * math.pi * q * i / sr) for q in freqs) / len(freqs))
        for i in range(n)]), 'the mean of the sine waves')


def noise(w, rate):
    f = period(w, rate)
    dur = w.int('duration', 0, 5 * f)
    with w.chance():
        out = w.z('synthesize.NoiseSynthesizer')(
            w.z('timeseries.' + rate)()).synthesize(w.td(dur))
    n = many(w, out, f, dur)
    audio(w, out, rate)
    w.check(w.And(True, *[w.And(el(w, out, i) >= -1, el(w, out, i) <= 1)
                          for i in range(n)]), 'within full scale')


def ticks(w, sr, length):
    """a tick at every multiple of the tick frequency"""
    rate = w.z('timeseries.samplerate.AudioSampleRate')(sr, 4, 2)
    f = int(w.ps(rate.frequency))
    dur = w.int('duration', 0, length * f)
    every = w.int('every', f, (length + 1) * f)
    with w.chance():
        out = w.z('synthesize.TickSynthesizer')(rate).synthesize(
            w.td(dur), w.td(every))
    n = many(w, out, f, dur)
    w.check(isinstance(out, w.z('timeseries.AudioSamples')), 'audio')
    w.check(w.ps(out.dimensions[0].frequency) == f, 'the sample rate')
    step = w.concretely(w.to_int(every // f))
    m = int(sr * .1)
    env = np.linspace(1, 0, m)
    tick = []
    for i in range(n):
        before = sum(tick[i - k] for k in range(step, i + 1, step)
                     if i - k < m)
        v = el(w, out, i) - before
        if i < m:
            w.check(w.And(v <= float(env[i]) + 1e-9,
                          v >= -float(env[i]) - 1e-9),
                    'a tick decays from full scale')
            tick.append(v)
        else:
            now = tick[i % step] if i % step < m and i >= step else 0
            if step >= m:
                w.check(w.near(el(w, out, i), now), 'the tick comes back')
            else:
                w.check(w.near(v, 0), 'the tick comes back')


def length(w, rate):
    """as long as silence of the same duration, for any duration"""
    f = period(w, rate)
    dur = w.int('duration', 0, MINUTE * 10)
    sr = w.z('timeseries.' + rate)()
    out = w.z('synthesize.NoiseSynthesizer')(sr).synthesize(w.td(dur))
    other = w.z('synthesize.SilenceSynthesizer')(sr).synthesize(w.td(dur))
    many(w, out, f, dur)
    many(w, other, f, dur)
    audio(w, out, rate)
    audio(w, other, rate)


def chunk(w, rate, depth):
    f = period(w, rate)
    dur = w.int('duration', 0, MINUTE * 10)
    channels = w.int('channels', 1, 8)
    size = int if not w.symbolic else w.to_int
    C = w.z('soundfile.ChunkSizeBytes')
    c = C(w.z('timeseries.' + rate)(), w.td(dur), channels=channels,
          bit_depth=depth)
    n = c.__int__()
    frame = channels * (depth // 8)
    k = w.int('k', 0)
    w.assume(w.And(k * f <= dur, dur < (k + 1) * f))
    w.check(n == k * frame, 'the bytes of as many samples as fit')
    n = C(w.z('timeseries.' + rate)(), w.td(dur)).__int__()
    w.check(n == k * 4, 'two channels of 16 bits unless told')


def samples(w, shape, rate, name='x'):
    raw = w.array(name, shape, -1, 1)
    return raw, w.z('timeseries.AudioSamples')(
        raw, w.z('timeseries.' + rate)())


def flat(w, a):
    return [el(w, a, *i) for i in np.ndindex(*a.shape)]


def channels(w, rate, shape):
    raw, a = samples(w, shape, rate)
    keep = raw.copy()
    n = shape[0]
    chans = 1 if len(shape) == 1 else shape[1]
    w.check(a.channels == chans, 'number of channels')
    w.check(a.samples_per_second == int(w.z('timeseries.' + rate)()),
            'samples per second')
    m = a.mono
    audio(w, m, rate)
    w.check(m.channels == 1, 'one channel')
    if chans == 1:
        close(w, flat(w, m), flat(w, raw), 'already mono')
    else:
        w.check(tuple(m.shape) == (n,), 'one value for each sample')
        close(w, flat(w, m), [sum(r) * .25 for r in cells(w, raw)],
              'channels are mixed')
        s = a.sum(axis=1)
        audio(w, s, rate)
        close(w, flat(w, s), [sum(r) for r in cells(w, raw)],
              'channels are summed up')
    if len(shape) == 1 or chans == 2:
        s = a.stereo
        audio(w, s, rate)
        w.check(tuple(s.shape) == (n, 2), 'two channels')
        want = [v for r in cells(w, raw) for v in r] if chans == 2 else [
            v for i in range(n) for v in (el(w, raw, i),) * 2]
        close(w, flat(w, s), want, 'both channels')
    w.check(w.equal(raw, keep), 'the samples are not changed')


def silence(w, rate, shape, dtype):
    f = period(w, rate)
    raw = w.array('x', shape, -1, 1, dtype=dtype)
    a = w.z('timeseries.AudioSamples')(raw, w.z('timeseries.' + rate)())
    dur = w.int('duration', 0, 3 * f)
    s = a.silence_like(w.td(dur))
    n = many(w, s, f, dur)
    audio(w, s, rate)
    w.check(s.dtype == raw.dtype and s.channels == a.channels, 'alike')
    w.check(w.And(True, *[v == 0 for v in flat(w, s)]), 'silence')
    p = a.pad_with_silence(w.td(dur))
    audio(w, p, rate)
    w.check(p.shape[0] == shape[0] + n and
            tuple(p.shape[1:]) == tuple(shape[1:]), 'so much longer')
    close(w, flat(w, p), flat(w, raw) + [0] * len(flat(w, s)),
          'the samples, then silence')
    w.check(p.dtype == raw.dtype, 'of the same type')
    many(w, a.pad_with_silence()[shape[0]:], f, SECOND)


def mixing(w, rate, other, shape):
    """only audio of the same rate can be added"""
    raw, a = samples(w, shape, rate)
    raw2, b = samples(w, shape, other, 'y')
    if rate != other:
        w.check(w.raises(ValueError, lambda: a + b), 'rates must match')
        w.check(w.raises(ValueError, lambda: b + a), 'rates must match')
        w.check(w.raises(ValueError, lambda: a.concatenate(b)),
                'rates must match')
        return
    out = a + b
    audio(w, out, rate)
    close(w, flat(w, out), [p + q for p, q in zip(flat(w, raw),
                                                  flat(w, raw2))], 'mixed')
    out = a + 1
    audio(w, out, rate)
    close(w, flat(w, out), [p + 1 for p in flat(w, raw)], 'offset')
    out = a * .5
    audio(w, out, rate)
    out = a.concatenate(b)
    w.check(w.ps(out.dimensions[0].frequency) == period(w, rate), 'rate')
    close(w, flat(w, out), flat(w, raw) + flat(w, raw2), 'one, then the other')


def picked(w, rate, shape):
    """audio is what remains of it at its rate, and nothing else"""
    raw, a = samples(w, shape, rate)
    n = shape[0]
    i, j = w.pick('i', n), w.pick('j', n)
    out = a[i: j + 1]
    audio(w, out, rate)
    close(w, flat(w, out), flat(w, raw[i: j + 1]), 'what was asked for')
    out = a[[i, j]]
    close(w, flat(w, out), flat(w, raw[[i, j]]), 'what was asked for')
    w.check(not isinstance(out, w.z('timeseries.AudioSamples')),
            'samples of any times are no audio')
    w.check(isinstance(out.dimensions[0], w.z('core.IdentityDimension')),
            'and have no units')
    if len(shape) == 2:
        k = w.pick('k', shape[1])
        out = a[:, k]
        close(w, flat(w, out), flat(w, raw[:, k]), 'a channel')
        w.check(w.ps(out.dimensions[0].frequency) == period(w, rate), 'rate')


def made(w, rate, kind):
    """what is no audio is not taken for it"""
    T = w.z('timeseries')
    A = T.AudioSamples
    sr = w.z('timeseries.' + rate)()
    if kind == 'rate':
        f = w.int('f', 1, 10 ** 12)
        w.check(w.raises(TypeError, lambda: A(
            w.array('x', (2,), -1, 1), T.SampleRate(w.td(f), w.td(f)))),
            'an audio sample rate')
    else:
        w.check(w.raises(ValueError, lambda: A(
            w.array('x', (2, 1, 2), -1, 1), sr)), 'samples by channels')
        w.check(w.raises(ValueError, lambda: A(w.np.zeros(()), sr)),
                'samples by channels')


HARNESSES = [
    Harness('sines', sines, world_a,
            [(r, q, 'list') for r in RATES for q in ((440.,), (220., 440.5))] +
            [('SR22050', (440., 440., 220.), 'list')] +
            [('SR22050', None, 'list'), ('SR11025', (1., 3., 5000.), 'array')],
            bounds='durations of up to 5 samples, 1 to 3 frequencies'),
    Harness('noise', noise, world_a, [(r,) for r in RATES],
            bounds='durations of up to 5 samples'),
    Harness('ticks', ticks, world_a, [(20, 6), (40, 9)],
            bounds='durations of up to 9 samples, any tick frequency'),
    Harness('length', length, world_b, [(r,) for r in RATES],
            bounds='durations of up to 10 minutes'),
    Harness('chunk', chunk, world_b,
            [(r, d) for r in RATES for d in (8, 16, 24, 32)],
            bounds='durations of up to 10 minutes, up to 8 channels'),
    Harness('channels', channels, world_a,
            [('SR22050', (3,)), ('SR44100', (3, 2)), ('SR11025', (2, 3)),
             ('SR48000', (2, 1)), ('SR96000', (0,)), ('SR16000', (0, 2))],
            bounds='up to 3 samples of up to 3 channels'),
    Harness('silence', silence, world_a,
            [('SR22050', (2,), float), ('SR44100', (2, 2), np.float32),
             ('SR11025', (1, 3), np.int16), ('SR48000', (0,), float)],
            bounds='durations of up to 3 samples'),
    Harness('mixing', mixing, world_a,
            [(a, b, (2,)) for a in RATES for b in RATES] +
            [('SR22050', 'SR22050', (2, 2)), ('SR22050', 'SR11025', (2, 2))],
            bounds='2 samples of up to 2 channels'),
    Harness('picked', picked, world_a,
            [('SR22050', (3,)), ('SR44100', (3, 2))],
            bounds='3 samples of up to 2 channels'),
    Harness('made', made, world_a,
            [('SR22050', 'rate'), ('SR22050', 'axes')],
            bounds='any sample rate of up to a second'),
]
ASSUMPTIONS = []
