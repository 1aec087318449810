"""C26: a stream of encoded audio comes out as the audio that went in."""
import numpy as np
from symz import stream
from symz.harness import Harness
from symz.worlds import world_t

MB = 1024 * 1024


def M(w):
    return w.z('soundfile.audiostream.MemoryBuffer')


def data(w, whole, a, n, total=None):
    """n bytes of the stream from position a"""
    if w.symbolic:
        return stream.Span([(a, n)], total)
    b = whole[a:a + n]
    if total is None:
        return b
    from featureflow.bytestream import BytesWithTotalLength
    return BytesWithTotalLength(b, total)


def is_part(w, whole, got, a, n):
    if not w.symbolic:
        return bytes(got) == whole[a:a + n]
    segs = stream.segments(got)
    off, ok = 0, []
    for s, l in segs:
        ok.append(w.Or(l == 0, s == a + off))
        off = off + l
    return w.And(off == n, *ok)


def buffer(w, steps, default):
    """reads return what was written, whatever is read and when; positions are
    those of the stream"""
    top = 30 * MB if default else 300
    total = w.int('total', 1, 4 * top)
    whole = None if w.symbolic else np.random.RandomState(1).bytes(total)
    m = None if default else w.int('max', 0, 600)
    b = M(w)(total) if default else M(w)(total, max_size=m)
    written = pos = low = 0
    for k in range(steps):
        op = 0 if k == 0 else w.pick('op%d' % k, 5 if k > 2 else 3)
        n = w.int('n%d' % k, 0, top)
        if op == 0:
            w.assume(written + n <= total)
            r = b.write(data(w, whole, written, n))
            w.check(r == n, 'all of it is written')
            written = written + n
            low = pos
        elif op == 1:
            got = b.read(n)
            left = written - pos
            n = w.ite(n < left, n, left) if w.symbolic else min(n, left)
            w.check(is_part(w, whole, got, pos, n), 'in order, all there is')
            pos = pos + n
        elif op == 2:
            room = stream.Room(n) if w.symbolic else bytearray(n)
            r = b.readinto(room)
            left = written - pos
            n = w.ite(n < left, n, left) if w.symbolic else min(n, left)
            w.check(r == n, 'as much as there is')
            got = stream.Span(room.segs) if w.symbolic else room[:n]
            w.check(is_part(w, whole, got, pos, n), 'in order, all there is')
            pos = pos + n
        elif op == 4:
            by = w.int('by%d' % k)
            w.assume(w.And(pos + by >= low, pos + by <= written))
            b.seek(by, 1)
            pos = pos + by
        else:
            b.seek(0, 2)
            w.check(b.tell() == total, 'the length of the whole stream')
            to = w.int('to%d' % k, 0)
            w.assume(w.And(to >= low, to <= written))
            b.seek(to, 0)
            pos = to
        w.check(b.tell() == pos, 'position')
    rest = b.read(-1)
    w.check(is_part(w, whole, rest, pos, written - pos), 'the rest')


SUBTYPES = {1: 'PCM_U8', 2: 'PCM_16', 3: 'PCM_24', 4: 'PCM_32'}


def wav(rate, channels, depth, frames):
    import struct
    n = frames * channels * depth
    head = b'RIFF' + struct.pack('<I', 36 + n) + b'WAVEfmt ' + struct.pack(
        '<IHHIIHH', 16, 1, channels, rate, rate * channels * depth,
        channels * depth, 8 * depth) + b'data' + struct.pack('<I', n)
    k = np.arange(frames * channels)
    if depth == 1:
        body = (code(k, 1) + 128).astype(np.uint8).tobytes()
    else:
        raw = code(k, depth).astype('<i4').tobytes()
        body = np.frombuffer(raw, np.uint8).reshape(-1, 4)[
            :, :depth].tobytes()
    return head + body


def code(k, depth):
    """the sample of a position"""
    top = 2 ** (8 * min(depth, 3))
    return (np.asarray(k, dtype=np.int64) * 7919 % top) - top // 2


def level(k, depth):
    return code(k, depth) / float(2 ** (8 * depth - 1))


def drive(w, node_args, chunks):
    """runs the node in a graph"""
    import featureflow as ff
    out = []

    class Feed(ff.Node):
        def _process(self, data):
            for c in data:
                yield c

    class Keep(ff.Node):
        def _process(self, data):
            out.append(data)
            yield data
    feed = Feed()
    node = w.z('soundfile.audiostream.AudioStream')(needs=feed, **node_args)
    keep = Keep(needs=node)
    g = ff.extractor.Graph(feed=feed, node=node, keep=keep)
    g.process(feed=chunks)
    return out


def streaming(w, k, rate, channels, depth, mono, low, top):
    """all frames, once and in order"""
    c = w.int('chunk', low, top)
    frames = w.int('frames', 1)
    total = 44 + frames * channels * depth
    rest = total - (k - 1) * c
    w.assume(w.And(rest > 0, rest <= c))
    sizes = [c] * (k - 1) + [rest]
    whole = None if w.symbolic else wav(rate, channels, depth, frames)
    chunks, at = [], 0
    for n in sizes:
        chunks.append(data(w, whole, at, n, total))
        at = at + n
    args = {} if mono is None else dict(sum_to_mono=mono)
    one = channels == 1 or mono in (None, True)
    with stream.Format(rate, channels, SUBTYPES[depth], depth, frames):
        out = drive(w, args, chunks)
    A = w.z('timeseries.AudioSamples')
    at = 0
    j = w.int('j', 0)
    for a in out:
        w.check(isinstance(a, A), 'audio samples')
        w.check(a.samplerate == w.z('timeseries.audio_sample_rate')(rate),
                'rate')
        n = a.shape[0]
        w.check(a.shape[1:] == (() if one else (channels,)), 'channels')
        if w.symbolic:
            if n > 0:
                i = w.ite(j < n, j, n - 1)
                f = at + i
                if one and channels > 1:
                    w.check(a.at((i,)) * 4 == sum(
                        f * channels + q for q in range(channels)),
                        'frames in order')
                else:
                    for q in range(channels):
                        w.check(a.at((i, q) if not one else (i,)) ==
                                f * channels + q, 'frames in order')
        else:
            v = level(np.arange(at * channels, (at + n) * channels), depth)
            v = v.reshape(n, channels)
            v = v.sum(axis=1) / 4. if one and channels > 1 else (
                v[:, 0] if one else v)
            w.check(np.allclose(np.asarray(a), v, atol=1e-9),
                    'frames in order')
        at = at + n
    w.check(at == frames, 'all frames, once')


def amount(w, depth, channels, subtype):
    """leaves enough for decoders that cannot wait"""
    f = w.z('soundfile.byte_depth.chunk_size_samples')
    rate = w.int('rate', 8000, 192000)
    n = w.int('bytes', 1, 100 * MB)

    class SF(object):
        pass
    sf = SF()
    sf.subtype, sf.channels, sf.samplerate = subtype, channels, rate
    got = f(sf, data(w, b'\0' * (0 if w.symbolic else n), 0, n))
    width = depth * channels
    w.check(got >= 0, 'a number of samples')
    if bool(n >= 7 * width * rate):
        w.check(got * width <= n - 6 * width * rate + width, 'six seconds '
                'stay unread')
        w.check((got + 1) * width >= n - 6 * width * rate - width,
                'all of the others')
    else:
        w.check(got == rate, 'one second')


HARNESSES = [
    Harness('buffer', buffer, world_t, [(4, False), (4, True)],
            bounds='the first write and 3 further operations, each of any length; any maximum size'),
    Harness('streaming', streaming, world_t,
            [(1, 44100, 2, 2, True, 64, 4 * MB),
             (3, 44100, 1, 2, None, 2 * MB, 30 * MB),
             (3, 44100, 2, 2, False, 4 * MB, 30 * MB),
             (4, 11025, 1, 2, True, 64, 20000),
             (3, 22050, 2, 3, None, 64, 200000),
             (3, 48000, 1, 4, False, 64, 400000),
             (2, 96000, 1, 1, True, 64, 1 * MB),
             (3, 96000, 2, 4, True, 12 * MB, 30 * MB)],
            bounds='up to 4 chunks of any size up to 20 kB, 200 kB, 400 kB, '
            '1 MB, 4 MB or from 2, 4 or 12 to 30 MB; 8 to 32 bits'),
    Harness('amount', amount, world_t,
            [(2, 1, 'PCM_16'), (2, 2, 'PCM_16'), (3, 2, 'VORBIS'),
             (3, 1, 'PCM_24'), (4, 2, 'FLOAT'), (8, 2, 'DOUBLE'),
             (1, 1, 'PCM_U8'), (1, 2, 'PCM_S8'), (4, 2, 'PCM_32')],
            bounds='rates from 8 to 192 kHz, up to 100 MB'),
]
ASSUMPTIONS = [
    'the first chunk holds the header of the file',
    'libsndfile is a model: uncompressed audio behind a header of 44 bytes, '
    'read through the calls python-soundfile makes; models and library are '
    'compared on concrete witnesses of the paths',
    'compressed formats are left out: libsndfile decodes them']
