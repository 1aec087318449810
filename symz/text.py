"""
Symbolic text: a string of fixed length whose characters are symbolic code
points (visible ASCII).  The text that C code would see is a placeholder that
is unique to the object, which encode() also stands for.
"""
import contextlib
import hmac
import secrets

from . import engine
from .engine import And, Or, Not, SymBool, Unsupported

LO, HI = 33, 126
_texts = []


def _bool(x):
    return x if isinstance(x, SymBool) else bool(x)


class SymText(str):
    def __new__(cls, codes):
        o = str.__new__(cls, '@@TEXT%d@@' % len(_texts))
        o.codes = tuple(codes)
        _texts.append(o)
        return o

    def _codes(self, other):
        if isinstance(other, SymText):
            return other.codes
        if isinstance(other, str):
            return tuple(ord(c) for c in other)
        return None

    def _is(self, codes):
        if len(codes) != len(self.codes):
            return False
        return And(*[a == b for a, b in zip(self.codes, codes)]) \
            if codes else True

    def __eq__(self, other):
        c = self._codes(other)
        return NotImplemented if c is None else self._is(c)

    def __ne__(self, other):
        c = self._codes(other)
        return NotImplemented if c is None else Not(self._is(c))

    def __hash__(self):
        raise Unsupported('hash of symbolic text')

    def __len__(self):
        return len(self.codes)

    def __bool__(self):
        return bool(self.codes)

    def __contains__(self, other):
        c = self._codes(other)
        n = len(c)
        return bool(Or(*[_sub(self.codes[i: i + n], c)
                         for i in range(len(self.codes) - n + 1)] or [False]))

    def startswith(self, other, *a):
        return _sub(self.codes[:len(self._codes(other))], self._codes(other))

    def endswith(self, other, *a):
        c = self._codes(other)
        return _sub(self.codes[len(self.codes) - len(c):]
                    if len(c) <= len(self.codes) else self.codes, c)

    def _shift(self, lo, hi, by):
        return SymText([engine.ite(And(c >= lo, c <= hi), c + by, c)
                        for c in self.codes])

    def lower(self):
        return self._shift(65, 90, 32)

    casefold = lower

    def upper(self):
        return self._shift(97, 122, -32)

    def strip(self, *a):
        if a:
            raise Unsupported('symbolic text')
        return self

    lstrip = rstrip = strip

    def __getitem__(self, i):
        c = self.codes[i]
        return SymText(c if isinstance(i, slice) else [c])

    def __iter__(self):
        for c in self.codes:
            yield SymText([c])

    def __str__(self):
        return self

    def encode(self, *a):
        """equal texts have equal bytes"""
        for t in _texts:
            if t is self:
                break
            c = self._is(t.codes)
            if c is True or (c is not False and not
                             engine.E.possible(Not(c))):
                return str.encode(t)
        return str.encode(str.__str__(self))


def _sub(a, b):
    if len(a) != len(b):
        return False
    return And(*[x == y for x, y in zip(a, b)]) if b else True


def _unsupported(name):
    def f(self, *a, **k):
        raise Unsupported('str.%s of symbolic text' % name)
    return f


for _n in dir(str):
    if _n not in SymText.__dict__ and _n not in (
            '__class__', '__doc__', '__getattribute__', '__init__', '__new__',
            '__setattr__', '__delattr__', '__dir__', '__init_subclass__',
            '__subclasshook__', '__reduce__', '__reduce_ex__', '__repr__',
            '__sizeof__', '__getstate__', '__getnewargs__'):
        setattr(SymText, _n, _unsupported(_n))


def _of(x):
    """the text that these bytes stand for"""
    if isinstance(x, bytes) and x.startswith(b'@@TEXT'):
        return _texts[int(x[6:-2])]
    return x


@contextlib.contextmanager
def compared():
    """comparisons that are implemented in C understand symbolic text"""
    old = hmac.compare_digest

    def compare_digest(a, b):
        a, b = _of(a), _of(b)
        if isinstance(a, SymText) or isinstance(b, SymText):
            if not isinstance(a, str):
                a = a.decode()
            if not isinstance(b, str):
                b = b.decode()
            return bool(a == b)
        return old(a, b)
    mods = [m for m in (hmac, secrets) if hasattr(m, 'compare_digest')]
    for m in mods:
        m.compare_digest = compare_digest
    try:
        yield
    finally:
        for m in mods:
            m.compare_digest = old


def text(w, name, n):
    """an input of n characters"""
    codes = [w.int('%s_%d' % (name, i), LO, HI) for i in range(n)]
    if w.symbolic:
        return SymText(codes)
    return ''.join(chr(c) for c in codes)
