"""C27: encoded files are cut by time, and written anew, without a loss."""
import io
import numpy as np
from symz import stream
from symz.harness import Harness
from symz.worlds import world_t
from .c26 import SUBTYPES, data, level, wav, is_part

SECOND = 10 ** 12


def opened(w, rate, channels, depth, frames):
    """the wrapper of a file, and what its frames are"""
    W = w.z('soundfile.ogg_vorbis.OggVorbisWrapper')
    if w.symbolic:
        n = 44 + frames * channels * depth
        with stream.Format(rate, channels, SUBTYPES[depth], depth, frames):
            return W(stream.SpanIO(stream.Span([(0, n)], n)))
    return W(io.BytesIO(wav(rate, channels, depth, frames)))


def frame_of(w, got, k, channels, depth):
    """frame k of what was read, as the sample of its first channel"""
    i = (k, 0) if channels > 1 else (k,)
    return got.at(i) if w.symbolic else np.asarray(got)[i]


def holds(w, got, first, n, channels, depth, label, j=None):
    """n consecutive frames, from the first one"""
    w.check(got.shape[0] == n, label + ': as many frames')
    w.check(got.shape[1:] == ((channels,) if channels > 1 else ()),
            label + ': channels')
    if w.symbolic:
        j = w.int('j', 0) if j is None else j
        if n > 0:
            j = w.ite(j < n, j, n - 1)
            for q in range(channels):
                w.check(got.at((j, q) if channels > 1 else (j,)) ==
                        (first + j) * channels + q, label + ': frames')
    else:
        v = level(np.arange(first * channels, (first + n) * channels), depth)
        v = v.reshape(n, channels) if channels > 1 else v
        w.check(np.allclose(np.asarray(got), v, atol=1e-9), label + ': frames')


def least(w, a, b):
    return w.ite(a < b, a, b) if w.symbolic else min(a, b)


def seconds(w, rate, channels, depth, top):
    """whole seconds are exactly as many frames as there are in a second"""
    frames = w.int('frames', 1, top * rate)
    a, d = w.int('start', 0, top), w.int('duration', 0, top)
    w.assume(a * rate <= frames)
    f = opened(w, rate, channels, depth, frames)
    TS = w.z('timeseries.TimeSlice')
    got = f[TS(w.td(d, 's'), start=w.td(a, 's'))]
    w.check(isinstance(got, w.z('timeseries.AudioSamples')), 'audio samples')
    w.check(got.samplerate == w.z('timeseries.audio_sample_rate')(rate),
            'rate')
    left = frames - a * rate
    holds(w, got, a * rate, least(w, d * rate, left), channels, depth,
          'seconds')


def samples(w, rate, channels, depth, top):
    """the time at which audio has a sample, and as long as it has samples"""
    frames = w.int('frames', 1, top * rate)
    a, d = w.int('start', 0, top * rate), w.int('n', 0, top * rate)
    w.assume(a <= frames)
    sr = w.z('timeseries.audio_sample_rate')(rate)
    f = opened(w, rate, channels, depth, frames)
    TS = w.z('timeseries.TimeSlice')
    got = f[TS(sr.frequency * d, start=sr.frequency * a)]
    holds(w, got, a, least(w, d, frames - a), channels, depth, 'samples')


def anywhere(w, rate, channels, depth, top):
    """less than one frame away from any time"""
    frames = w.int('frames', 1, top * rate)
    a, d = w.int('start', 0, top * SECOND), w.int('duration', 0, top * SECOND)
    w.assume(a * rate <= frames * SECOND)
    f = opened(w, rate, channels, depth, frames)
    TS = w.z('timeseries.TimeSlice')
    got = f[TS(w.td(d), start=w.td(a))]
    n = got.shape[0]
    if n == 0:
        w.check(w.Or(d * rate < SECOND, (frames - 1) * SECOND < a * rate),
                'empty when there is nothing')
        return
    if w.symbolic:
        first = got.at((0, 0) if channels > 1 else (0,)) // channels
        near = w.And(first * SECOND < a * rate + SECOND,
                     first * SECOND > a * rate - SECOND)
    else:
        v = np.asarray(got)[0, 0] if channels > 1 else np.asarray(got)[0]
        k = a * rate // SECOND
        near = any(0 <= i and v == level(i * channels, depth)
                   for i in (k - 1, k, k + 1)
                   if abs(i * SECOND - a * rate) < SECOND)
        first = k
    w.check(near, 'begins where it should')
    w.check(n * SECOND < d * rate + SECOND, 'not longer')
    w.check(w.Or(n * SECOND > d * rate - SECOND,
                 first + n >= frames - (0 if w.symbolic else 1)),
            'not shorter, unless it ends')


def whole(w, rate, channels, depth, top):
    """open ends, everything, and second by second"""
    frames = w.int('frames', 1, top * rate)
    a = w.int('start', 0, top)
    w.assume(a * rate <= frames)
    f = opened(w, rate, channels, depth, frames)
    j = w.int('j', 0)
    TS = w.z('timeseries.TimeSlice')
    w.check(f.samplerate == rate, 'rate')
    w.check(f.channels == channels, 'channels')
    w.check(f.duration_seconds * rate == frames if w.symbolic else
            abs(f.duration_seconds * rate - frames) < 1e-3, 'duration')
    holds(w, f[TS(start=w.td(a, 's'))], a * rate, frames - a * rate, channels,
          depth, 'open ended', j)
    holds(w, f[TS()], 0, frames, channels, depth, 'empty slice', j)
    holds(w, f[slice(None)], 0, frames, channels, depth, 'everything', j)


def chunks(w, rate, channels, depth, top, between):
    """all frames, once and in order"""
    frames = w.int('frames', 1, top * rate)
    f = opened(w, rate, channels, depth, frames)
    j = w.int('j', 0)
    at = 0
    for c in f.iter_chunks():
        n = c.shape[0]
        holds(w, c, at, n, channels, depth, 'in order', j)
        at = at + n
        if between:
            f[slice(None)]
    w.check(at == frames, 'all frames')


class Encoder(object):
    """stands for the encoder: keeps what it is given and produces bytes for
    it, the last ones when it is closed"""

    def __init__(self, w, file, log, late, **k):
        self.w, self.file, self.log, self.late = w, file, log, late
        self.out = self.frames = 0
        log['args'] = k
        log['open'] = True
        self._emit(7)

    def _emit(self, n):
        if self.w.symbolic:
            self.file.write(stream.Span([(self.out, n)]))
        else:
            self.file.write(pattern(self.out, n))
        self.out = self.out + n
        self.log['out'] = self.out

    def write(self, samples):
        n = samples.shape[0]
        self.log['written'].append(samples)
        self.frames = self.frames + n
        if not self.late:
            self._emit(3 * n)

    def close(self):
        if self.log['open'] and self.late:
            self._emit(3 * self.frames)
        self.log['open'] = False


def pattern(a, n):
    return (np.arange(a, a + n, dtype=np.int64) * 7919 % 251).astype(
        np.uint8).tobytes()


def is_output(w, got, a, n):
    if w.symbolic:
        return is_part(w, None, got, a, n)
    return bytes(got) == pattern(a, n)


def rewrite(w, k, rate, channels, depth, low, top, late, name='WAV'):
    """the encoder gets every frame once and in order, and all that it makes
    is passed on"""
    import featureflow as ff
    c = w.int('chunk', low, top)
    frames = w.int('frames', 1)
    total = 44 + frames * channels * depth
    rest = total - (k - 1) * c
    w.assume(w.And(rest > 0, rest <= c))
    file = None if w.symbolic else wav(rate, channels, depth, frames)
    parts, at = [], 0
    for n in [c] * (k - 1) + [rest]:
        parts.append(data(w, file, at, n, total))
        at = at + n
    mod = w.z('soundfile.ogg_vorbis')
    reader = mod.SoundFile
    log = dict(written=[], open=False)
    out = []

    class Named(reader):
        # the name of the container is all that tells them apart
        format = property(lambda self: name, lambda self, v: None)

    def sound_file(f, mode='r', **kw):
        if mode == 'r':
            return Named(f, **kw)
        return Encoder(w, f, log, late, **kw)

    class Feed(ff.Node):
        def _process(self, parts):
            for p in parts:
                yield p

    class Keep(ff.Node):
        def _process(self, x):
            out.append(x)
            yield x
    mod.SoundFile = sound_file
    try:
        with stream.Format(rate, channels, SUBTYPES[depth], depth, frames):
            feed = Feed()
            node = mod.OggVorbis(needs=feed)
            keep = Keep(needs=node)
            ff.extractor.Graph(feed=feed, node=node, keep=keep).process(
                feed=parts)
    finally:
        mod.SoundFile = reader
    w.check(log.get('args') == dict(format='OGG', subtype='VORBIS',
                                samplerate=rate, channels=channels),
            'written as ogg, with the rate and channels of the file')
    j = w.int('j', 0)
    at = 0
    for x in log['written']:
        n = x.shape[0]
        w.check(w.And(n >= 0, n <= 20 * rate), 'pieces the encoder can take')
        holds(w, x, at, n, channels, depth, 'written', j)
        at = at + n
    w.check(at == frames, 'all frames are written, once')
    w.check(not log['open'], 'the encoder is closed')
    at = 0
    for o in out:
        n = len(o) if not w.symbolic else sum(
            l for _, l in stream.segments(o))
        w.check(is_output(w, o, at, n), 'bytes in order')
        at = at + n
    w.check(at == log['out'], 'everything is passed on')


def already(w, k, low, top):
    """what is ogg already passes unchanged"""
    import featureflow as ff
    c = w.int('chunk', low, top)
    frames = w.int('frames', 1)
    total = 44 + 2 * frames
    rest = total - (k - 1) * c
    w.assume(w.And(rest > 0, rest <= c))
    file = None if w.symbolic else wav(44100, 1, 2, frames)
    parts, at = [], 0
    for n in [c] * (k - 1) + [rest]:
        parts.append(data(w, file, at, n, total))
        at = at + n
    mod = w.z('soundfile.ogg_vorbis')
    reader = mod.SoundFile
    out = []

    class Ogg(object):
        def __init__(self, f, mode='r', **kw):
            w.check(mode == 'r', 'nothing is written')
            self.format, self.subtype = 'OGG', 'VORBIS'
            self.samplerate, self.channels = 44100, 1

    class Feed(ff.Node):
        def _process(self, parts):
            for p in parts:
                yield p

    class Keep(ff.Node):
        def _process(self, x):
            out.append(x)
            yield x
    mod.SoundFile = Ogg
    try:
        feed = Feed()
        node = mod.OggVorbis(needs=feed)
        keep = Keep(needs=node)
        ff.extractor.Graph(feed=feed, node=node, keep=keep).process(feed=parts)
    finally:
        mod.SoundFile = reader
    at = 0
    for o in out:
        n = len(o) if not w.symbolic else sum(
            l for _, l in stream.segments(o))
        w.check(is_part(w, file, o, at, n), 'bytes in order')
        at = at + n
    w.check(at == total, 'all of them')


FORMATS = [(44100, 1, 2), (11025, 2, 2), (48000, 1, 1), (96000, 1, 1),
           (22050, 2, 3)]
HARNESSES = [
    Harness('seconds', seconds, world_t, [f + (600,) for f in FORMATS],
            bounds='files, starts and durations of up to 10 minutes'),
    Harness('samples', samples, world_t, [f + (60,) for f in FORMATS],
            bounds='up to a minute'),
    Harness('anywhere', anywhere, world_t,
            [f + (60,) for f in FORMATS] + [(11025, 1, 2, 600),
                                            (44100, 1, 2, 600)],
            bounds='up to a minute, or to 10, in picoseconds'),
    Harness('whole', whole, world_t, [f + (60,) for f in FORMATS],
            bounds='up to a minute'),
    Harness('chunks', chunks, world_t, [f + (4, b) for f, b in zip(
        FORMATS, (True, False, True, False, True))],
            bounds='up to 4 seconds'),
    Harness('rewrite', rewrite, world_t,
            [(1, 44100, 2, 2, 64, 500000, False),
             (3, 11025, 1, 2, 64, 30000, False, 'FLAC'),
             (2, 22050, 2, 3, 64, 200000, True, 'AIFF'),
             (2, 96000, 1, 4, 64, 500000, False, 'W64'),
             (1, 11025, 1, 1, 310000, 350000, True),
             (2, 11025, 1, 1, 310000, 350000, False, 'CAF'),
             (1, 11025, 1, 1, 530000, 560000, False, 'FLAC')],
            bounds='up to 3 chunks of any size up to 30 kB, 200 kB, 500 kB, '
            'of 310 to 350 kB, or one of 530 to 560 kB',
            stubs=['the encoder: records what it is given']),
    Harness('already', already, world_t, [(1, 64, 10 ** 6), (3, 64, 10 ** 6)],
            bounds='up to 3 chunks of up to 1 MB',
            stubs=['the reader: reports the format ogg']),
]
ASSUMPTIONS = [
    'libsndfile is a model: uncompressed audio behind a header of 44 bytes, '
    'read through the calls python-soundfile makes; models and library are '
    'compared on concrete witnesses of the paths',
    'ogg vorbis itself (lossy) is left out: libsndfile encodes and decodes it',
    'slices begin before the end of the file']
