"""
Stand-ins for what streams of encoded audio pass through: byte strings of
symbolic length which know which part of the stream they are (Span), in-memory
files of them (SpanIO), and a sound file that reads uncompressed audio through
the virtual io protocol of python-soundfile and libsndfile (SoundFile).
"""
import types
from . import engine, lnp
from .engine import Unsupported

HEADER = 44


class Span(object):
    """consecutive pieces of a stream: (first byte, number of bytes)"""
    _sym_bytes = bytes

    def __init__(self, segs, total_length=None):
        self.segs = join(segs)
        if total_length is not None:
            self.total_length = total_length

    def __sym_len__(self):
        n = 0
        for _, l in self.segs:
            n = n + l
        return n

    def __bool__(self):
        return bool(self.__sym_len__() != 0)

    def _extra(self):
        return getattr(self, 'total_length', None)

    def __add__(self, o):
        # as bytes: the result is an ordinary string
        if isinstance(o, Span):
            return Span(self.segs + o.segs)
        if o == b'':
            return Span(self.segs)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, Span):
            return Span(o.segs + self.segs, self._extra())
        if o == b'':
            return Span(self.segs, self._extra())
        return NotImplemented

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsupported('bytes of a stream')
        n = self.__sym_len__()
        a = 0 if s.start is None else s.start
        b = n if s.stop is None else s.stop
        if a < 0:
            a = lnp.imax(0, n + a)
        if b < 0:
            b = lnp.imax(0, n + b)
        return Span(cut(self.segs, a, b))


def join(segs):
    out = []
    for s, l in segs:
        if isinstance(l, int) and l == 0:
            continue
        s, l = lnp.simp(s), lnp.simp(l)
        if out:
            a, b = out[-1]
            if lnp.same(lnp.simp(a + b), s):
                out[-1] = (a, lnp.simp(b + l))
                continue
        out.append((s, l))
    return out


def cut(segs, a, b):
    out, off = [], 0
    for s, l in segs:
        lo, hi = off, lnp.simp(off + l)
        off = hi
        if a >= hi or b <= lo:
            continue
        x = a if a > lo else lo
        y = b if b < hi else hi
        if y > x:
            out.append((lnp.simp(s + (x - lo)), lnp.simp(y - x)))
    return join(out)


def segments(data):
    if isinstance(data, Span):
        return data.segs
    if isinstance(data, (bytes, bytearray)) and not data:
        return []
    raise Unsupported('bytes which are no part of the stream')


class SpanIO(object):
    def __init__(self, data=b''):
        self.segs = list(segments(data))
        self.pos = 0

    def _size(self):
        n = 0
        for _, l in self.segs:
            n = lnp.simp(n + l)
        return n

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        base = (0, self.pos, self._size())[whence]
        p = lnp.simp(base + offset)
        if p < 0:
            if whence == 0:
                raise ValueError('negative seek value')
            p = 0
        self.pos = p
        return p

    def read(self, count=-1):
        n = self._size()
        if count is None or count < 0:
            end = n
        else:
            end = lnp.simp(self.pos + count)
            end = end if end < n else n
        if not (end > self.pos):
            return b''
        out = Span(cut(self.segs, self.pos, end))
        self.pos = end
        return out

    def readinto(self, room):
        data = self.read(room.size)
        n = data.__sym_len__() if isinstance(data, Span) else 0
        room[:n] = data
        return n

    def write(self, data):
        segs = segments(data)
        n = self._size()
        if self.pos > n:
            raise Unsupported('gaps')
        l = 0
        for _, k in segs:
            l = l + k
        end = lnp.simp(self.pos + l)
        rest = cut(self.segs, end, n) if end < n else []
        self.segs = join(cut(self.segs, 0, self.pos) + list(segs) + rest)
        self.pos = end
        return l

    def getvalue(self):
        return Span(self.segs)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        self.segs = cut(self.segs, 0, size)
        return size

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Room(object):
    """memory to read into"""

    def __init__(self, size):
        self.size = size
        self.segs = []

    def __sym_len__(self):
        return self.size

    def __setitem__(self, s, data):
        n = s.stop if s.stop is not None else self.size
        segs = segments(data)
        l = 0
        for _, k in segs:
            l = l + k
        if (s.start or 0) != 0 or s.step not in (None, 1):
            raise Unsupported('part of a buffer')
        # a buffer cannot change its size
        m = n if n < self.size else self.size
        if m != l:
            raise ValueError('right operand length must match slice length')
        self.segs = segs


class Format(object):
    """what the header of the stream says"""
    current = None

    def __init__(self, samplerate, channels, subtype, depth, frames,
                 format='WAV'):
        self.samplerate, self.channels = samplerate, channels
        self.format = format
        self.subtype, self.depth, self.frames = subtype, depth, frames

    def __enter__(self):
        Format.current = self
        return self

    def __exit__(self, *a):
        Format.current = None


class SoundFile(object):
    def __init__(self, file, mode='r', **k):
        if mode != 'r' or k or Format.current is None:
            raise Unsupported('sound files')
        self.file = file
        f = self._format = Format.current
        self.samplerate, self.channels = f.samplerate, f.channels
        self.subtype, self.format = f.subtype, f.format
        self.width = f.channels * f.depth
        length = self._length()
        head = self._read(HEADER, 0)
        if len(head) != 1 or bool(head[0][1] < HEADER) or \
                bool(head[0][0] != 0):
            raise RuntimeError('Error opening: file contains data in an '
                               'unknown format')
        there = (length - HEADER) // self.width
        self.frames = f.frames if f.frames < there else there
        self.at = 0

    def __sym_len__(self):
        return self.frames

    def _length(self):
        cur = self.file.tell()
        self.file.seek(0, 2)
        n = self.file.tell()
        self.file.seek(cur, 0)
        return n

    def _read(self, count, position):
        """as many bytes as there are at this position"""
        self._seek(position)
        read = getattr(self.file, 'readinto', None)
        if read is not None:
            room = Room(count)
            n = read(room)
            return cut(room.segs, 0, n)
        return segments(self.file.read(count))

    def _seek(self, position):
        self.file.seek(position, 0)
        if self.file.tell() != position:
            raise RuntimeError('File seek failed')

    def tell(self):
        return self.at

    def seek(self, frames, whence=0):
        if whence != 0 or bool(frames < 0) or bool(frames > self.frames):
            raise Unsupported('seek')
        self._seek(HEADER + frames * self.width)
        self.at = frames
        return frames

    def read(self, frames=-1, dtype='float64', always_2d=False,
             fill_value=None, out=None):
        if fill_value is not None or out is not None:
            raise Unsupported('options of SoundFile.read')
        # whole numbers are others than the fractions that are audio
        other = 0 if str(dtype).startswith('float') else -10 ** 9
        left = self.frames - self.at
        if frames < 0 or frames > left:
            frames = left
        segs = []
        if frames > 0:
            segs = self._read(lnp.simp(frames * self.width),
                              HEADER + self.at * self.width)
        n = 0
        for _, l in segs:
            n = n + l
        got = lnp.simp(n // self.width)
        width, ch = self.width, self.channels

        def value(idx):
            k = idx[0]
            c = idx[1] if len(idx) > 1 else 0
            v, off = -1, 0
            for s, l in segs:
                byte = k * width - off
                # whole frames of the stream only
                here = engine.And(byte >= 0, byte + width <= l,
                                  (s + byte - HEADER) % width == 0)
                f = (s + byte - HEADER) // width
                v = lnp_ite(here, f * ch + c + other, v)
                off = off + l
            return v
        shape = (got, ch) if always_2d or ch > 1 else (got,)
        self.at = lnp.simp(self.at + got)
        self._seek(HEADER + self.at * width)
        return lnp.LazyArr.from_function(shape, value)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def lnp_ite(c, a, b):
    return engine.ite(c, a, b)


def modules():
    import io
    import soundfile
    out = {}
    for real, over in ((io, dict(BytesIO=SpanIO)),
                       (soundfile, dict(SoundFile=SoundFile))):
        m = types.ModuleType(real.__name__)
        m.__dict__.update({k: v for k, v in real.__dict__.items()
                           if not k.startswith('__')})
        m.__dict__.update(over)
        out[real.__name__] = m
    return out
