"""C15: range requests and content ranges."""
import re
from symz import shadow
from symz.harness import Harness
from symz.worlds import world_b
from .common import SECOND


def number(w, text):
    return shadow.sym_float(text) if w.symbolic else float(text)


def text(w, x):
    """the number as it appears in a header"""
    return str(x) if w.symbolic else '%.15f' % x


def fields(w, s):
    n = r'(\d[\d.]*(?:e[-+]?\d+)?|[^-/]+)'
    m = re.match(r'^(\w+) %s-%s/%s$' % (n, n, n), s)
    return m.group(1), [number(w, g) for g in m.groups()[1:]]


def byte_request(w, closed):
    R = w.z('ui.contentrange.RangeRequest')
    a, b = w.int('a', 0, 10 ** 12), w.int('b', 0, 10 ** 12)
    w.assume(a <= b)
    s = R('bytes=%s-%s' % (a, b if closed else '')).range()
    w.check(s.start == a, 'first byte')
    w.check(s.stop == b if closed else s.stop is None, 'end')


def time_request(w, closed):
    R = w.z('ui.contentrange.RangeRequest')
    a, b = w.real('a', 0, 10 ** 5), w.real('b', 0, 10 ** 5)
    w.assume(a <= b)
    s = R('seconds=%s-%s' % (text(w, a), text(w, b) if closed else '')).range()
    # a microsecond is far below what a client can mean, and far above what
    # the conversion loses
    near = lambda ps, sec: w.And(ps - sec * 1e12 <= 1e6, ps - sec * 1e12 >= -1e6)
    w.check(near(w.ps(s.start), a), 'start')
    if closed:
        w.check(near(w.ps(s.duration), b - a), 'duration')
    else:
        w.check(s.duration is None, 'open ended')


def byte_range(w, closed):
    """what is announced is what the slice takes out of the resource"""
    C = w.z('ui.contentrange.ContentRange')
    total = w.int('total', 1, 10 ** 12)
    a, b = w.int('a', 0, 10 ** 12), w.int('b', 0, 10 ** 12)
    w.assume(w.And(a < total, a <= b))
    c = C.from_slice(slice(a, b if closed else None), total)
    unit, (x, y, z) = fields(w, str(c))
    w.check(unit == 'bytes', 'unit')
    stop = w.ite(b < total, b, total) if closed else total
    w.check(w.And(x == a, y == stop, z == total), 'bytes start-stop/total')


def time_range(w, closed):
    C = w.z('ui.contentrange.ContentRange')
    TS = w.z('timeseries.TimeSlice')
    total = w.int('total', 1, 10 ** 16)
    a, d = w.int('a', 0, 10 ** 16), w.int('d', 0, 10 ** 16)
    w.assume(a < total)
    ts = TS(w.td(d), start=w.td(a)) if closed else TS(start=w.td(a))
    c = C.from_timeslice(ts, w.td(total))
    unit, (x, y, z) = fields(w, str(c))
    w.check(unit == 'seconds', 'unit')
    end = w.ite(a + d < total, a + d, total) if closed else total
    near = lambda s, ps: w.And(s * 1e12 - ps <= 1e6, s * 1e12 - ps >= -1e6)
    w.check(w.And(near(x, a), near(y, end), near(z, total)),
            'seconds start-stop/total')


def unit(w):
    R = w.z('ui.contentrange.RangeRequest')
    E = w.z('ui.contentrange.RangeUnitUnsupportedException')
    a, b = w.int('a', 0, 10 ** 12), w.int('b', 0, 10 ** 12)
    for u in ('hours', 'items', 'Bytes', 'byte', 'second', 'none'):
        w.check(w.raises(E, R('%s=%s-%s' % (u, a, b)).range),
                'other units are refused')
    for h in (None, ''):
        w.check(R(h).range() == slice(None), 'no header, no range')


def serve(w, how):
    """the bytes the default serializer reads from a stored feature"""
    closed = how == 'closed'
    S = w.z('ui.serializer.DefaultSerializer')
    total = w.int('total', 1, 10 ** 9)
    a, b = w.int('a', 0, 10 ** 9), w.int('b', 0, 10 ** 9)
    w.assume(w.And(a < total, a <= b))
    log = {}

    class Flo(object):
        pos = 0

        def seek(self, n):
            self.pos = n

        def read(self, n=None):
            log['read'] = (self.pos, n)
            return b''

    class Enc(object):
        content_type = 'text/plain'

    class Feature(object):
        encoder, key, version = Enc, 'k', 'v'

        def __call__(self, **k):
            return Flo()

    class Doc(object):
        _id = 'id'

        class key_builder(object):
            build = staticmethod(lambda *x: x)

        class database(object):
            size = staticmethod(lambda key: total)

    class Context(object):
        document, feature = Doc, Feature()
        slce = slice(None) if how == 'whole' else \
            slice(a, b if closed else None)
    if how == 'whole':
        a = 0
    r = S('text/plain').serialize(Context)
    pos, n = log['read']
    w.check(pos == a, 'reads from the first byte')
    w.check(n == b - a if closed else n is None, 'reads as much as asked for')
    w.check(r.is_partial == (how != 'whole'), 'a partial response')
    _, (x, y, z) = fields(w, str(r.content_range))
    stop = w.ite(b < total, b, total) if closed else total
    w.check(w.And(x == a, y == stop, z == total),
            'the content range is what is sent')


HARNESSES = [
    Harness('byte_request', byte_request, world_b, [(True,), (False,)],
            bounds='positions up to 10^12'),
    Harness('time_request', time_request, world_b, [(True,), (False,)],
            bounds='times up to 10^5 s'),
    Harness('byte_range', byte_range, world_b, [(True,), (False,)],
            bounds='resources up to 10^12 bytes'),
    Harness('time_range', time_range, world_b, [(True,), (False,)],
            bounds='resources up to 10^4 s, in picoseconds'),
    Harness('unit', unit, world_b, bounds='positions up to 10^12'),
    Harness('serve', serve, world_b, [('closed',), ('open',), ('whole',)],
            bounds='resources up to 10^9 bytes',
            stubs=['featureflow document, feature and database']),
]
ASSUMPTIONS = ['numbers in headers are written in full precision',
               'satisfiable ranges: they start inside the resource']
