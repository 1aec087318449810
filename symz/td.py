"""
Symbolic numpy.timedelta64: an integer count of a unit.  Fully concrete
operations are delegated to the real numpy.timedelta64, so only operations on
symbolic counts rely on the model below (which is compared with real numpy by
`selftest.py`).
"""
import builtins
import numpy as np
import z3
from . import engine
from .engine import (SymInt, SymFloat, SymBool, Sym, int_e, is_sym,
                     rounded_quotient, floordiv_e, real_e, Unsupported)

PS = {
    'h': 3600 * 10 ** 12, 'm': 60 * 10 ** 12, 's': 10 ** 12, 'ms': 10 ** 9,
    'us': 10 ** 6, 'ns': 10 ** 3, 'ps': 1, 'D': 86400 * 10 ** 12,
}
ORDER = ['D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps']
LIMIT = 2 ** 63


class _TDMeta(type):
    def __instancecheck__(cls, x):
        if type.__instancecheck__(cls, x):
            return True
        return cls is TD and isinstance(x, np.timedelta64)


def _finer(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a if ORDER.index(a) > ORDER.index(b) else b


def _real_parts(x):
    unit, n = np.datetime_data(x.dtype)
    if unit == 'generic':
        unit = None
    v = x.astype('int64')
    v = int(v)
    if n != 1:
        v = v * n
    return v, unit


class TD(metaclass=_TDMeta):
    _sym_td = True
    __array_priority__ = 1e7

    def __new__(cls, value=0, unit=None):
        self = object.__new__(TD)
        if isinstance(value, np.timedelta64):
            v, u = _real_parts(value)
            self.v, self.unit = v, u
            if unit is not None and unit != u:
                return self.to_unit(unit)
            return self
        if isinstance(value, TD):
            self.v, self.unit = value.v, value.unit
            if unit is not None and unit != self.unit:
                return self.to_unit(unit)
            return self
        if isinstance(value, (SymInt,)):
            self.v, self.unit = value, unit
            if unit is not None:
                self._range()
            return self
        if isinstance(value, SymFloat):
            raise ValueError('Could not convert object to NumPy timedelta')
        if isinstance(value, (builtins.int, np.integer)):
            self.v, self.unit = builtins.int(value), unit
            return self
        real = np.timedelta64(value) if unit is None \
            else np.timedelta64(value, unit)
        return TD(real)

    @staticmethod
    def mk(v, unit):
        if is_sym(v):
            e = z3.simplify(int_e(v))
            if z3.is_int_value(e):
                v = e.as_long()
        self = object.__new__(TD)
        self.v, self.unit = v, unit
        if is_sym(v):
            self._range()
        return self

    def _range(self):
        """numpy's int64 must not overflow: outside the claim"""
        e = int_e(self.v)
        engine.E.assume(z3.And(e < LIMIT, e > -LIMIT))

    # -- conversions
    @property
    def concrete(self):
        return not is_sym(self.v)

    def real(self):
        if self.unit is None:
            return np.timedelta64(self.v)
        return np.timedelta64(self.v, self.unit)

    def to_unit(self, unit):
        if unit == self.unit:
            return self
        if self.unit is None:
            return TD.mk(self.v, unit)
        if self.concrete:
            return TD(self.real().astype('timedelta64[%s]' % unit))
        a, b = PS[self.unit], PS[unit]
        if a >= b:
            return TD.mk(self.v * (a // b), unit)
        return TD.mk(self.v // (b // a), unit)

    def ps(self):
        """the exact value in picoseconds (a python int or SymInt), without
        any overflow: for use by oracles only"""
        return self.v * PS[self.unit]

    @property
    def dtype(self):
        return np.dtype('timedelta64') if self.unit is None \
            else np.dtype('timedelta64[%s]' % self.unit)

    def astype(self, dtype, **kw):
        d = np.dtype(dtype)
        if d.kind == 'm':
            u = np.datetime_data(d)[0]
            return self.to_unit(u) if u != 'generic' else self
        if d.kind == 'O':
            return self
        if self.concrete:
            return self.real().astype(d)
        r = engine.convert_dtype(
            self.v if isinstance(self.v, SymInt) else SymInt(self.v), d)
        if type(r) is SymInt:
            r = SymInt(r.e)
            r._np_dtype = d
        return r

    def item(self):
        if self.concrete:
            return self.real().item()
        if self.unit in ('ps', 'ns'):
            return self.v
        raise Unsupported('timedelta64.item on a symbolic value')

    ndim = 0
    shape = ()
    size = 1
    itemsize = 8

    def __repr__(self):
        if self.concrete:
            return repr(self.real())
        return 'TD(%r, %s)' % (self.v, self.unit)

    def __str__(self):
        if self.concrete:
            return str(self.real())
        return '<td>'

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def conjugate(self):
        return self

    # -- coercion of the other operand
    @staticmethod
    def _co(o):
        if isinstance(o, TD):
            return o
        if isinstance(o, np.timedelta64):
            return TD(o)
        if isinstance(o, (builtins.int, np.integer, SymInt)) \
                and not isinstance(o, (bool, np.bool_)):
            return TD.mk(o if is_sym(o) else builtins.int(o), None)
        return None

    @staticmethod
    def _arr(o):
        return isinstance(o, np.ndarray) or getattr(o, '_sym_array', False)

    @staticmethod
    def _each(o, fn):
        """element by element, for plain arrays"""
        if type(o) is not np.ndarray or o.dtype.kind not in 'iuObm':
            return NotImplemented
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            x = o[i]
            r[i] = fn(TD(x) if isinstance(x, np.timedelta64) else x)
        return r

    def _common(self, o):
        u = _finer(self.unit, o.unit)
        return self._scaled(u), o._scaled(u), u

    def _scaled(self, u):
        if u == self.unit or self.unit is None:
            return self.v
        r = self.v * (PS[self.unit] // PS[u])
        if is_sym(r):
            TD.mk(r, u)
        return r

    def _both(self, o):
        return self.concrete and o.concrete

    def __add__(self, o):
        if self._arr(o):
            return self._each(o, lambda x: self + x)
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self._both(o):
            return TD(self.real() + o.real())
        a, b, u = self._common(o)
        return TD.mk(a + b, u)
    __radd__ = __add__

    def __sub__(self, o):
        if self._arr(o):
            return self._each(o, lambda x: self - x)
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self._both(o):
            return TD(self.real() - o.real())
        a, b, u = self._common(o)
        return TD.mk(a - b, u)

    def __rsub__(self, o):
        if self._arr(o):
            return self._each(o, lambda x: x - self)
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        if self._arr(o):
            return self._each(o, lambda x: self * x)
        if isinstance(o, (TD, np.timedelta64)):
            raise TypeError("ufunc 'multiply' cannot use operands with types "
                            "timedelta64 and timedelta64")
        if isinstance(o, (slice, type(None))):
            raise TypeError('unsupported operand type(s) for *')
        if self.concrete and not is_sym(o):
            return TD(self.real() * o)
        if isinstance(o, (builtins.int, np.integer, SymInt)):
            return TD.mk(self.v * o, self.unit)
        if isinstance(o, (SymFloat, float, np.floating)):
            p = SymFloat(real_e(self.v)) * o
            return TD.mk(SymInt(p._trunc_e()), self.unit)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if self._arr(o):
            return self._each(o, lambda x: self / x)
        if isinstance(o, (TD, np.timedelta64)):
            o = self._co(o)
            if self._both(o):
                return self.real() / o.real()
            a, b, u = self._common(o)
            be = int_e(b)
            if engine.E.branch(be == 0):
                return engine.Weird.div(
                    SymInt(int_e(a)) if not is_sym(a) else a)
            return rounded_quotient(int_e(a), be)
        if self.concrete and not is_sym(o):
            return TD(self.real() / o)
        if isinstance(o, (builtins.int, np.integer, SymInt)):
            q = SymFloat(real_e(self.v)) / o
            return TD.mk(SymInt(q._trunc_e()), self.unit)
        if isinstance(o, (SymFloat, float, np.floating)):
            q = SymFloat(real_e(self.v)) / o
            return TD.mk(SymInt(q._trunc_e()), self.unit)
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, np.timedelta64):
            return TD(o) / self
        return NotImplemented

    def __floordiv__(self, o):
        if self._arr(o):
            return self._each(o, lambda x: self // x)
        if isinstance(o, (TD, np.timedelta64)):
            o = self._co(o)
            if self._both(o):
                return self.real() // o.real()
            a, b, u = self._common(o)
            return SymInt(floordiv_e(int_e(a), int_e(b)))
        if self.concrete and not is_sym(o):
            return TD(self.real() // o)
        if isinstance(o, (builtins.int, np.integer, SymInt)):
            return TD.mk(SymInt(floordiv_e(int_e(self.v), int_e(o))), self.unit)
        if isinstance(o, (SymFloat, float, np.floating)):
            q = (SymFloat(real_e(self.v)) / o).floor()
            return TD.mk(SymInt(q._trunc_e()), self.unit)
        return NotImplemented

    def __rfloordiv__(self, o):
        if isinstance(o, np.timedelta64):
            return TD(o) // self
        return NotImplemented

    def __mod__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self._both(o):
            return TD(self.real() % o.real())
        a, b, u = self._common(o)
        a, b = int_e(a), int_e(b)
        return TD.mk(SymInt(a - floordiv_e(a, b) * b), u)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return TD.mk(-self.v, self.unit)

    def __pos__(self):
        return self

    def __abs__(self):
        return TD.mk(abs(self.v), self.unit)

    def _cmp(self, o, name):
        if self._arr(o):
            return NotImplemented
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self._both(o):
            return getattr(self.real(), name)(o.real())
        a, b, u = self._common(o)
        a, b = int_e(a), int_e(b)
        return SymBool({
            '__lt__': a < b, '__le__': a <= b, '__gt__': a > b,
            '__ge__': a >= b, '__eq__': a == b, '__ne__': a != b}[name])

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        return self._cmp(o, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, '__ge__')

    def __eq__(self, o):
        if o is None or self._co(o) is None:
            return False if not self._arr(o) else NotImplemented
        return self._cmp(o, '__eq__')

    def __ne__(self, o):
        if o is None or self._co(o) is None:
            return True if not self._arr(o) else NotImplemented
        return self._cmp(o, '__ne__')

    def __bool__(self):
        if self.concrete:
            return bool(self.real())
        return bool(SymBool(int_e(self.v) != 0))

    def __hash__(self):
        if self.concrete:
            return hash(self.real())
        return hash((self.ps()).__index__())

    def _ite(self, c, other):
        o = self._co(other)
        a, b, u = self._common(o)
        return TD.mk(engine.ite(c, SymInt(int_e(a)), SymInt(int_e(b))), u)

    def __float__(self):
        raise TypeError('timedelta to float')
