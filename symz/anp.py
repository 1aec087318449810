"""
World A: numpy arrays of concrete shape whose elements are symbolic.

`SymArr` is a real numpy.ndarray of dtype object, with a logical dtype.  Real
numpy does all indexing, broadcasting, reshaping and memory sharing; the
elementwise functions, reductions, masks and dtype conversions are defined here
on symbolic elements.  Floating point numbers are treated as real numbers,
integers of up to 32 bits wrap as they do in numpy.
"""
import builtins
import math
import operator
import numpy as np
import z3
from . import engine, lnp, wire
from .engine import (Sym, SymInt, SymFloat, SymBool, SymBV, SymNum, Weird,
                     is_sym, ite, as_bool, And, Or, Not, Unsupported,
                     convert_dtype)
from .td import TD

_real_dtype = np.ndarray.dtype


def symbolic(x):
    return isinstance(x, (Sym, Weird))


# -- complex numbers ----------------------------------------------------------

class SymComplex(Sym):
    """a pair of reals"""

    def __init__(self, re, im=0.0):
        self.re, self.im = re, im

    e = None

    @staticmethod
    def co(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymComplex(float(x.real), float(x.imag))
        if isinstance(x, (SymInt, SymFloat, SymBool, int, float, np.generic)):
            return SymComplex(x, 0.0)
        return None

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def _b(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = SymComplex.co(o)
        return NotImplemented if o is None else f(self, o)

    def __add__(self, o):
        return self._b(o, lambda a, b: SymComplex(a.re + b.re, a.im + b.im))
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: SymComplex(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._b(o, lambda b, a: SymComplex(a.re - b.re, a.im - b.im))

    def __mul__(self, o):
        return self._b(o, lambda a, b: SymComplex(
            _mul(a.re, b.re) - _mul(a.im, b.im),
            _mul(a.re, b.im) + _mul(a.im, b.re)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SymComplex) or isinstance(
                o, (complex, np.complexfloating)):
            o = SymComplex.co(o)
            n = o.re * o.re + o.im * o.im
            return self * SymComplex(o.re / n, -o.im / n)
        return self._b(o, lambda a, b: SymComplex(a.re / b.re, a.im / b.re))

    def __rtruediv__(self, o):
        return SymComplex.co(o) / self

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __abs__(self):
        return sqrt_(self.re * self.re + self.im * self.im)

    def conjugate(self):
        return SymComplex(self.re, -self.im)
    conj = conjugate

    def __eq__(self, o):
        o = SymComplex.co(o)
        if o is None:
            return NotImplemented
        return And(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return 'SymComplex(%r, %r)' % (self.re, self.im)


def _mul(a, b):
    """multiplication which keeps zeros concrete"""
    if not is_sym(a) and a == 0 or not is_sym(b) and b == 0:
        return 0.0
    return a * b


# -- scalar functions -----------------------------------------------------------

def sqrt_(x):
    return x.sqrt() if hasattr(x, 'sqrt') else np.sqrt(x)


def _meth(name):
    real = getattr(np, name)

    def f(x):
        if not symbolic(x):
            return real(x)
        if isinstance(x, (SymInt, SymBool)):
            x = SymFloat(engine.real_e(x))
        m = getattr(x, name, None)
        if m is None:
            raise Unsupported('np.%s of a symbol' % name)
        return m()
    return f


def _absolute(x):
    return abs(x)


def _max(a, b):
    return ite(as_bool(a >= b), a, b)


def _min(a, b):
    return ite(as_bool(a <= b), a, b)


def _clip(x, lo=None, hi=None):
    if lo is not None:
        x = _max(x, lo)
    if hi is not None:
        x = _min(x, hi)
    return x


def truth(x):
    """x as a condition, without branching on it"""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt, SymFloat, SymBV, SymComplex)):
        return x != 0
    return builtins.bool(x)


def _power(a, b):
    if not symbolic(b) and builtins.float(b) == 2:
        return a * a
    if not symbolic(b) and builtins.float(b) == 0.5:
        return sqrt_(a)
    return a ** b


def _isnan(x):
    if isinstance(x, Weird):
        return x.kind == 'nan'
    return False if is_sym(x) else builtins.bool(np.isnan(x))


def _isfinite(x):
    if isinstance(x, Weird):
        return False
    return True if is_sym(x) else builtins.bool(np.isfinite(x))


def _isinf(x):
    if isinstance(x, Weird):
        return x.kind != 'nan'
    return False if is_sym(x) else builtins.bool(np.isinf(x))


def _bitop(f, logical):
    def g(a, b):
        if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(
                b, (SymBool, bool, np.bool_)):
            return logical(a, b)
        return f(a, b)
    return g


def _sign(x):
    return x.sign() if symbolic(x) else np.sign(x)


def _rint(x):
    return x.rint() if isinstance(x, SymFloat) else (
        x if is_sym(x) else np.rint(x))


def _real(x):
    return x.real if isinstance(x, SymComplex) else (
        x if is_sym(x) else np.real(x))


def _mulr(a, b):
    if isinstance(a, SymBool):
        a = a.as_int()
    if isinstance(b, SymBool):
        b = b.as_int()
    return a * b


def _xor(a, b):
    a, b = truth(a), truth(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return as_bool(a) ^ as_bool(b)
    return a != b


def _cx(f):
    """arithmetic of complex constants with real variables"""
    def g(a, b):
        if isinstance(a, (complex, np.complexfloating)) and is_sym(b):
            a = SymComplex.co(a)
        elif isinstance(b, (complex, np.complexfloating)) and is_sym(a):
            b = SymComplex.co(b)
            a = SymComplex.co(a)
        return f(a, b)
    return g


SCALAR = {
    'add': _cx(operator.add), 'subtract': _cx(operator.sub),
    'multiply': _cx(_mulr),
    'divide': _cx(operator.truediv), 'true_divide': _cx(operator.truediv),
    'floor_divide': operator.floordiv, 'remainder': operator.mod,
    'power': _power, 'float_power': _power,
    'negative': operator.neg, 'positive': lambda x: x,
    'absolute': _absolute, 'fabs': _absolute, 'sign': _sign,
    'square': lambda x: x * x, 'reciprocal': lambda x: 1 / x,
    'sqrt': _meth('sqrt'), 'exp': _meth('exp'), 'expm1': _meth('expm1'),
    'log': _meth('log'), 'log1p': _meth('log1p'), 'log2': _meth('log2'),
    'log10': _meth('log10'), 'sin': _meth('sin'), 'cos': _meth('cos'),
    'tanh': _meth('tanh'),
    'floor': _meth('floor'), 'ceil': _meth('ceil'), 'trunc': _meth('trunc'),
    'rint': _rint, 'maximum': _max, 'minimum': _min, 'fmax': _max,
    'fmin': _min, 'clip': _clip,
    'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt,
    'less_equal': operator.le, 'greater': operator.gt,
    'greater_equal': operator.ge,
    'logical_and': lambda a, b: And(truth(a), truth(b)),
    'logical_or': lambda a, b: Or(truth(a), truth(b)),
    'logical_not': lambda a: Not(truth(a)), 'logical_xor': _xor,
    'bitwise_and': _bitop(operator.and_, And),
    'bitwise_or': _bitop(operator.or_, Or),
    'bitwise_xor': _bitop(operator.xor, _xor),
    'invert': lambda a: Not(a) if isinstance(a, (SymBool, bool, np.bool_))
    else ~a,
    'left_shift': operator.lshift, 'right_shift': operator.rshift,
    'isnan': _isnan, 'isfinite': _isfinite, 'isinf': _isinf,
    'conjugate': lambda x: x.conjugate(),
}
LOGICAL = {'equal', 'not_equal', 'less', 'less_equal', 'greater',
           'greater_equal', 'logical_and', 'logical_or', 'logical_not',
           'logical_xor', 'isnan', 'isfinite', 'isinf'}

_kinds = {}


def sample(x):
    """a real value of the same type, to ask numpy for result types"""
    if isinstance(x, SymArr):
        return np.ones((1,) * x.ndim, x.dtype)
    if isinstance(x, np.ndarray):
        return np.ones((1,) * x.ndim, x.dtype if x.dtype != object else float)
    if isinstance(x, SymBool):
        return True
    if isinstance(x, SymInt):
        return 1
    if isinstance(x, SymBV):
        return np.dtype('%s%d' % ('int' if x.signed else 'uint', x.bits)
                        ).type(1)
    if isinstance(x, SymComplex):
        return 1j
    if is_sym(x) or isinstance(x, Weird):
        return 1.0
    if isinstance(x, np.generic):
        return x.dtype.type(1)
    if isinstance(x, (bool, int, float, complex)):
        return type(x)(1)
    if isinstance(x, (list, tuple)):
        return sample(as_sym(x))
    return None


def result_dtype(ufunc, inputs):
    ss = [sample(x) for x in inputs]
    if any(s is None for s in ss):
        return np.dtype(object)
    key = (ufunc.__name__,) + tuple(
        (str(s.dtype), s.ndim) if isinstance(s, (np.ndarray, np.generic))
        else type(s).__name__ for s in ss)
    if key not in _kinds:
        with np.errstate(all='ignore'):
            try:
                r = ufunc(*ss)
            except TypeError:
                raise
        _kinds[key] = [np.asarray(y).dtype for y in r] if isinstance(
            r, tuple) else np.asarray(r).dtype
    return _kinds[key]


def number(d, x):
    """a concrete number as an element of an array of dtype d"""
    if d.kind == 'f':
        return np.float64(x)
    if d.kind in 'iu':
        return d.type(x) if d.itemsize == 8 and d.kind == 'u' else np.int64(x)
    if d.kind == 'b':
        return np.bool_(x)
    if d.kind == 'c':
        return np.complex128(x)
    return x


def clean(x, d):
    """a result as an element of an array of dtype d"""
    if not symbolic(x):
        if d.kind in 'fiubc' and not isinstance(x, np.ndarray):
            if d.kind in 'iu' and d.itemsize < 8:
                return np.int64(np.asarray(x).astype(d)[()])
            return number(d, x)
        return x
    if d.kind in 'iu' and not isinstance(x, SymBV):
        if isinstance(x, SymBool):
            x = x.as_int()
        if d.itemsize < 8 and isinstance(x, SymInt):
            return convert_dtype(x, d)
        return x
    if d.kind == 'f':
        if isinstance(x, (SymInt, SymBool)):
            return SymFloat(engine.real_e(x))
        return x
    if d.kind == 'c' and not isinstance(x, SymComplex):
        return SymComplex.co(x)
    if d.kind == 'b':
        return truth(x)
    return x


class _Meta(type):
    def __instancecheck__(cls, x):
        if cls is SymArr:
            return type.__instancecheck__(np.ndarray, x)
        return type.__instancecheck__(cls, x)

    def __init__(cls, name, bases, ns):
        type.__init__(cls, name, bases, ns)
        f = ns.get('__array_finalize__')
        if f is not None and bases != (np.ndarray,):
            def fin(self, obj, f=f):
                SymArr.__array_finalize__(self, obj)
                return f(self, obj)
            cls.__array_finalize__ = fin


def _sub(x):
    """an array of a class of its own"""
    return isinstance(x, np.ndarray) and type(x) not in (SymArr, np.ndarray)


def raw(x):
    """the plain object array behind x"""
    return np.ndarray.view(x, np.ndarray) if isinstance(x, SymArr) else x


def to_native(x):
    """a real numpy array with the values of x, all of which are concrete"""
    if isinstance(x, SymArr):
        r = raw(x)
        if r.dtype != object:
            return r
        out = np.empty(r.shape, x.dtype)
        for i in np.ndindex(*r.shape):
            out[i] = r[i]
        return out
    return x


def is_concrete(x):
    if isinstance(x, np.ndarray):
        r = raw(x)
        return r.dtype != object or not builtins.any(
            symbolic(v) for v in r.reshape(-1))
    return not symbolic(x)


def wrap(r, d, cls=None):
    out = np.ndarray.view(r, SymArr)
    out._ld = np.dtype(d)
    return out


def from_native(x, d=None):
    """object storage for a native array"""
    d = np.dtype(d or x.dtype)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = number(d, x[i]) if d.kind in 'fiubc' else x[i]
    return wrap(out, d)


def infer(r):
    kinds = set()
    for v in r.reshape(-1):
        if isinstance(v, (SymBool, bool, np.bool_)):
            kinds.add(np.dtype(bool))
        elif isinstance(v, SymBV):
            kinds.add(np.dtype('%s%d' % ('int' if v.signed else 'uint',
                                         v.bits)))
        elif isinstance(v, (SymInt, int)):
            kinds.add(np.dtype('int64'))
        elif isinstance(v, np.generic):
            kinds.add(v.dtype)
        elif isinstance(v, (SymComplex, complex)):
            kinds.add(np.dtype(complex))
        elif isinstance(v, (SymFloat, Weird, float)):
            kinds.add(np.dtype(float))
        else:
            return np.dtype(object)
    return np.result_type(*kinds) if kinds else np.dtype(float)


def _contains_sym(x, depth=0):
    if symbolic(x) or isinstance(x, SymArr):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and builtins.any(
            symbolic(v) for v in x.reshape(-1)[:1000])
    if isinstance(x, (list, tuple)) and depth < 6:
        return builtins.any(_contains_sym(v, depth + 1) for v in x)
    return False


def as_sym(x, dtype=None):
    """np.asarray for symbolic data; always object storage"""
    if isinstance(x, SymArr):
        if raw(x).dtype != object:
            x = from_native(raw(x))
        out = x if type(x) is SymArr else np.ndarray.view(x, SymArr)
        if type(x) is not SymArr:
            out._ld = x.dtype
        return out if dtype is None or np.dtype(dtype) == x.dtype \
            else out.astype(dtype)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            out = wrap(x, infer(x))
        elif x.dtype.kind in 'fiubc':
            out = from_native(x)
        else:
            return x
    elif symbolic(x):
        r = np.empty((), dtype=object)
        r[()] = x
        out = wrap(r, infer(r))
    elif isinstance(x, (list, tuple)):
        if not _contains_sym(x):
            n = np.asarray(x, dtype)
            return from_native(n) if n.dtype.kind in 'fiubc' else n
        parts = [as_sym(v) if isinstance(v, (list, tuple, np.ndarray)) or
                 symbolic(v) else as_sym(np.asarray(v)) for v in x]
        shapes = set(p.shape for p in parts)
        if len(shapes) != 1:
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        r = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            r[i] = raw(p) if p.ndim else raw(p)[()]
        d = np.result_type(*[p.dtype for p in parts])
        out = wrap(r, d)
    else:
        n = np.asarray(x, dtype)
        return from_native(n) if n.dtype.kind in 'fiubc' else n
    return out if dtype is None or np.dtype(dtype) == out.dtype \
        else out.astype(dtype)


class SymArr(np.ndarray, metaclass=_Meta):
    __slots__ = ('_ld',)
    __array_priority__ = 5

    def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None,
                order=None):
        if buffer is not None:
            return strided(buffer, shape, strides, cls)
        d = np.dtype(dtype)
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        shape = tuple(builtins.int(s) for s in shape)
        if d.kind not in 'fiubc':
            return np.ndarray.__new__(cls, shape, dtype=d)
        obj = np.ndarray.__new__(cls, shape, dtype=object)
        obj._ld = d
        r = raw(obj)
        for i in np.ndindex(*shape):
            r[i] = unknown(d)
        return obj

    def __array_finalize__(self, obj):
        if obj is not None and isinstance(obj, np.ndarray):
            ld = getattr(obj, '_ld', None)
            if ld is not None:
                self._ld = ld

    @property
    def dtype(self):
        d = _real_dtype.__get__(self)
        if d != object:
            return d
        ld = getattr(self, '_ld', None)
        if ld is None:
            b = self.base
            if isinstance(b, SymArr) and getattr(
                    b, '_ld', None) is not None:
                ld = b._ld
            else:
                ld = infer(raw(self))
            self._ld = ld
        return ld

    # -- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def __array_wrap__(self, obj, context=None):
        if type(self) is SymArr:
            return obj
        out = np.ndarray.view(obj, type(self))
        out._ld = obj.dtype
        f = type(self).__array_finalize__
        f(out, self)
        out._ld = obj.dtype
        return out

    def __array_function__(self, func, types, args, kwargs):
        f = HOOKS.get(func)
        if f is not None:
            return f(*args, **kwargs)
        name = getattr(func, '__name__', '')
        if name in FORBIDDEN:
            raise Unsupported('np.%s' % name)
        out = np.ndarray.__array_function__(self, func, types, args, kwargs)
        return out

    # -- indexing
    def __getitem__(self, index):
        index = plain_index(index)
        out = np.ndarray.__getitem__(self, index)
        return out

    def __setitem__(self, index, value):
        if isinstance(index, tuple) and len(index) == 1:
            index = index[0]
        d = self.dtype
        me = raw(self)
        if me.dtype != object:
            if _contains_sym(value) or _contains_sym(index):
                raise Unsupported('symbols stored into a native array')
            return np.ndarray.__setitem__(self, index, value)
        if isinstance(index, SymArr) and index.dtype.kind == 'b' \
                and not is_concrete(index):
            if index.shape != self.shape[:index.ndim]:
                raise IndexError('boolean index did not match indexed array')
            v = elements(value, d)
            if isinstance(v, np.ndarray) and v.ndim and v.size != 1:
                index = plain_index(index)
            else:
                if isinstance(v, np.ndarray):
                    v = v.reshape(-1)[0]
                m = raw(index)
                for i in np.ndindex(*index.shape):
                    c = truth(m[i])
                    if not is_sym(c):
                        if c:
                            me[i] = v
                    elif me.ndim == index.ndim:
                        me[i] = ite(c, v, me[i])
                    else:
                        sub = me[i]
                        for j in np.ndindex(*sub.shape):
                            sub[j] = ite(c, v, sub[j])
                return
        index = plain_index(index)
        v = elements(value, d)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        me[index] = v

    # -- conversions
    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        d = np.dtype(dtype)
        r = raw(self)
        if r.dtype != object:
            out = from_native(r.astype(d))
        else:
            o = np.empty(r.shape, dtype=object)
            src = self.dtype
            for i in np.ndindex(*r.shape):
                v = r[i]
                if isinstance(v, SymComplex):
                    v = v if d.kind == 'c' else v.re
                if symbolic(v):
                    o[i] = clean(convert_dtype(v, d) if not isinstance(
                        v, SymComplex) else v, d)
                else:
                    o[i] = number(d, np.asarray(v).astype(src).astype(d)[()])
            out = wrap(o, d)
        if type(self) is not SymArr:
            return SymArr.__array_wrap__(self, out)
        return out

    def view(self, dtype=None, type=None):
        cls = dtype if isinstance(dtype, builtins.type) and issubclass(
            dtype, np.ndarray) else type
        if cls is not None:
            if cls is np.ndarray:
                cls = SymArr
            if issubclass(cls, SymArr):
                out = np.ndarray.view(self, cls)
                out._ld = self.dtype
                return out
            return np.ndarray.view(self, cls)
        if dtype is None:
            return np.ndarray.view(self)
        if np.dtype(dtype) == self.dtype:
            return np.ndarray.view(self)
        return reinterpret(self, np.dtype(dtype))

    def tobytes(self, order='C'):
        if is_concrete(self):
            return to_native(self).tobytes(order)
        return FlatBytes(list(raw(self).reshape(-1)), self.dtype)
    tostring = tobytes

    @property
    def real(self):
        if self.dtype.kind != 'c':
            return self
        return elementwise(lambda x: x.real, self, np.float64)

    @property
    def imag(self):
        if self.dtype.kind != 'c':
            return np_zeros(self.shape, self.dtype)
        return elementwise(lambda x: x.imag, self, np.float64)

    def conj(self):
        return np.conjugate(self)
    conjugate = conj

    def round(self, decimals=0, out=None):
        return elementwise(lambda x: round_(x, decimals), self, self.dtype)

    def dot(self, b, out=None):
        return dot_(self, b)

    @property
    def flags(self):
        return np.ndarray.flags.__get__(self)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def __bool__(self):
        r = raw(self)
        if r.size == 1:
            return builtins.bool(truth(r.reshape(-1)[0]))
        return builtins.bool(r)

    def __contains__(self, x):
        return builtins.bool(np.any(self == x))

    def __deepcopy__(self, memo):
        out = np.ndarray.copy(self)
        out._ld = self.dtype
        return out

    def argsort(self, axis=-1, kind=None, order=None):
        return np.ndarray.argsort(raw(self), axis, 'stable')

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if out is not None or k:
            raise Unsupported('np.mean options')
        s = np.add.reduce(self, axis=axis, keepdims=keepdims)
        n = self.size
        if axis is not None:
            n = 1
            for a in (axis if isinstance(axis, tuple) else (axis,)):
                n *= self.shape[a]
        if n == 0:
            raise Unsupported('mean of nothing')
        return s / np.float64(n)


def _var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if out is not None or k or ddof:
        raise Unsupported('np.var options')
    m = SymArr.mean(self, axis=axis, keepdims=True)
    d = as_sym(self) - m
    d = np.abs(d)
    return SymArr.mean(as_sym(d * d), axis=axis, keepdims=keepdims)


def _std(self, *a, **k):
    v = _var(self, *a, **k)
    return np.sqrt(v) if isinstance(v, np.ndarray) else sqrt_(v)


SymArr.var, SymArr.std = _var, _std


def round_(x, decimals=0):
    if not symbolic(x):
        return np.round(x, decimals)
    if isinstance(x, SymInt):
        return x
    return x.rint() if not decimals else x.round(decimals)


def elements(value, d):
    """the elements of a value which is stored into an array of dtype d"""
    if d.kind not in 'fiubc':
        return value
    if symbolic(value) or isinstance(value, (builtins.int, builtins.float,
                                             builtins.bool, np.generic)):
        return store(value, d)
    v = as_sym(value)
    if not isinstance(v, SymArr):
        raise Unsupported('storing %s' % type(value).__name__)
    if v.dtype == d:
        return raw(v)
    return raw(v.astype(d))


def store(v, d):
    if symbolic(v):
        if isinstance(v, SymComplex):
            return v if d.kind == 'c' else v.re
        if isinstance(v, SymBV) and d.kind in 'iu':
            return v.resize(d.itemsize * 8, d.kind == 'i')
        return clean(convert_dtype(v, d), d)
    if d.kind in 'iu' and isinstance(v, (builtins.float, np.floating)):
        return np.int64(np.asarray(v).astype(d)[()])
    return number(d, np.asarray(v).astype(d)[()] if d.kind != 'c' else v)


def unknown(d):
    """uninitialised memory"""
    name = engine.E.fresh_name('uninit')
    if d.kind == 'f':
        return SymFloat(z3.Real(name))
    if d.kind == 'b':
        return SymBool(z3.Bool(name))
    if d.kind == 'c':
        return SymComplex(SymFloat(z3.Real(name)), SymFloat(z3.Real(name + 'i')))
    if d.kind == 'u' and d.itemsize == 8:
        return SymBV(z3.BitVec(name, 64))
    x = z3.Int(name)
    bits = d.itemsize * 8
    lo = 0 if d.kind == 'u' else -2 ** (bits - 1)
    engine.E.fact(z3.And(x >= lo, x < lo + 2 ** bits))
    return SymInt(x)


def plain_index(index):
    """symbolic indices are made concrete"""
    if isinstance(index, tuple):
        return tuple(plain_index(i) for i in index)
    if isinstance(index, list):
        return plain_index(as_sym(index)) if _contains_sym(index) else index
    if isinstance(index, SymArr):
        r = raw(index)
        if r.dtype != object:
            return r
        d = index.dtype
        if d.kind == 'b':
            return np.array([builtins.bool(truth(v)) for v in r.reshape(-1)],
                            dtype=bool).reshape(r.shape)
        if d.kind in 'iu':
            return np.array([operator.index(v) for v in r.reshape(-1)],
                            dtype=np.int64).reshape(r.shape)
        if d.kind == 'f' and r.size:
            raise IndexError('arrays used as indices must be of integer (or '
                             'boolean) type')
        return to_native(index)
    if isinstance(index, SymBool):
        return builtins.bool(index)
    if isinstance(index, (SymFloat, Weird)):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), '
                         'numpy.newaxis (`None`) and integer or boolean arrays '
                         'are valid indices')
    if isinstance(index, (SymInt, SymBV)):
        return operator.index(index)
    if isinstance(index, slice):
        f = lambda v: operator.index(v) if is_sym(v) else v
        return slice(f(index.start), f(index.stop), f(index.step))
    return index


def elementwise(f, x, d):
    r = raw(x)
    o = np.empty(r.shape, dtype=object)
    d = np.dtype(d)
    for i in np.ndindex(*r.shape):
        o[i] = clean(f(r[i]), d)
    out = wrap(o, d)
    if _sub(x):
        return x.__array_wrap__(out)
    return out


def scalar_fn(ufunc):
    f = SCALAR.get(ufunc.__name__)
    if f is None:
        raise Unsupported('np.%s' % ufunc.__name__)

    def g(*xs):
        if not builtins.any(symbolic(x) for x in xs):
            with np.errstate(all='ignore'):
                return ufunc(*xs)
        return f(*xs)
    return g


def finish(out, inputs, context=None):
    """numpy's wrapping of results"""
    best = None
    for x in inputs:
        if _sub(x):
            p = getattr(x, '__array_priority__', 0)
            if best is None or p > getattr(best, '__array_priority__', 0):
                best = x
    if best is not None:
        return best.__array_wrap__(out, context)
    if out.ndim == 0:
        return raw(out)[()]
    return out


def apply_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    kwargs = dict(kwargs)
    outs = kwargs.pop('out', None)
    if outs is not None and not isinstance(outs, tuple):
        outs = (outs,)
    subok = kwargs.pop('subok', True)
    for k in ('casting', 'order', 'signature', 'sig'):
        kwargs.pop(k, None)
    dtype = kwargs.pop('dtype', None)
    if builtins.any(getattr(x, '_sym_td', False) for x in inputs):
        return NotImplemented
    if builtins.any(getattr(type(x), '__array_ufunc__', True) is None and
                    not symbolic(x) for x in inputs):
        return NotImplemented
    others = [x for x in list(inputs) + list(outs or ())
              if not isinstance(x, SymArr) and not symbolic(x)
              and hasattr(type(x), '__array_ufunc__')
              and type(x).__array_ufunc__ is not np.ndarray.__array_ufunc__
              and not isinstance(x, np.generic)]
    if others:
        # a class with its own protocol (Sample, ...) decides
        extra = dict(kwargs)
        if outs is not None:
            extra['out'] = outs
        return others[0].__array_ufunc__(ufunc, method, *inputs, **extra)
    if name == 'matmul' and method == '__call__':
        return dot_(inputs[0], inputs[1], matmul=True)
    arrs = [as_sym(x) if isinstance(x, (np.ndarray, list, tuple)) else x
            for x in inputs]
    f = scalar_fn(ufunc)
    if method == '__call__':
        where = kwargs.pop('where', True)
        if kwargs:
            raise Unsupported('ufunc options %s' % sorted(kwargs))
        d = result_dtype(ufunc, inputs)
        if dtype is not None and name not in LOGICAL:
            d = np.dtype(dtype)
        if isinstance(d, list):
            raise Unsupported('np.%s' % name)
        vals = [raw(a) if isinstance(a, np.ndarray) else box(a) for a in arrs]
        wh = None
        if where is not True:
            wh = raw(as_sym(where)) if isinstance(where, np.ndarray) \
                else box(where)
            bs = np.broadcast(*(vals + [wh]))
        else:
            bs = np.broadcast(*vals) if len(vals) > 1 else vals[0]
        target = None
        if outs is not None and outs[0] is not None:
            target = outs[0]
            if not isinstance(target, SymArr) or raw(target).dtype != object:
                raise Unsupported('ufunc output into a native array')
            if tuple(target.shape) != tuple(bs.shape):
                if np.broadcast_shapes(target.shape, bs.shape) != target.shape:
                    raise ValueError('non-broadcastable output operand')
            d = result_dtype(ufunc, inputs) if dtype is None else d
            shape = target.shape
        else:
            shape = bs.shape
        vals = [np.broadcast_to(v, shape) for v in vals]
        o = np.empty(shape, dtype=object)
        whb = np.broadcast_to(wh, shape) if wh is not None else None
        res = None
        for i in np.ndindex(*shape):
            c = True if whb is None else truth(whb[i])
            if not is_sym(c) and not c:
                o[i] = raw(target)[i] if target is not None else unknown(d)
                continue
            if is_sym(c):
                # where the mask is off nothing is computed
                old = raw(target)[i] if target is not None else unknown(d)
                v = clean(guarded(f, [x[i] for x in vals], c, ufunc), d)
                o[i] = ite(c, v, old)
            else:
                o[i] = clean(f(*[x[i] for x in vals]), d)
        if target is not None:
            t = raw(target)
            td = target.dtype
            if td.kind in 'iu' and d.kind == 'f' and name not in LOGICAL:
                raise TypeError("Cannot cast ufunc '%s' output from %s to %s "
                                "with casting rule 'same_kind'" % (name, d, td))
            for i in np.ndindex(*shape):
                t[i] = store(o[i], td) if td != d else o[i]
            return target
        out = wrap(o, d)
        if not subok:
            return out
        return finish(out, inputs, (ufunc, inputs, 0))
    if method in ('reduce', 'accumulate', 'outer'):
        a = arrs[0]
        if method == 'outer':
            b = arrs[1]
            return apply_ufunc(ufunc, '__call__', (
                as_sym(a).reshape(a.shape + (1,) * np.ndim(b)), b), {})
        if kwargs.pop('where', True) is not True:
            raise Unsupported('reduction with a mask')
        x = raw(a)
        one = np.ones((1,) * max(a.ndim, 1), a.dtype)
        with np.errstate(all='ignore'):
            d = np.asarray(getattr(ufunc, method)(
                one, axis=0, dtype=dtype)).dtype if dtype is not None else \
                np.asarray(getattr(ufunc, method)(one, axis=0)).dtype
        initial = kwargs.pop('initial', np._NoValue)
        axis = kwargs.pop('axis', 0)
        if method == 'accumulate':
            pyf = np.frompyfunc(lambda p, q: clean(f(p, q), d), 2, 1)
            o = pyf.accumulate(x, axis=axis, dtype=object)
            return finish(wrap(o, d), inputs)
        keepdims = kwargs.pop('keepdims', False)
        if kwargs:
            raise Unsupported('reduction options %s' % sorted(kwargs))
        o = reduce_(lambda p, q: clean(f(p, q), d), x, axis, bool(keepdims),
                    ufunc.identity, initial, name, d)
        out = wrap(o, d)
        if outs is not None and outs[0] is not None:
            t = outs[0]
            raw(t)[...] = o
            return t
        return finish(out, inputs)
    if method == 'at':
        a, index, b = inputs
        for i, v in zip(plain_index(index), np.broadcast_to(b, len(index))):
            a[i] = f(a[i], v)
        return None
    raise Unsupported('np.%s.%s' % (name, method))


def guarded(f, xs, c, ufunc):
    """division where the mask excludes zero"""
    if ufunc.__name__ in ('divide', 'true_divide') and is_sym(xs[1]):
        a, b = xs
        with engine.E.assuming(c):
            zero = engine.E.possible(engine.to_z3_bool(b == 0))
        if not zero:
            safe = ite(b == 0, SymFloat(z3.RealVal(1)), b)
            # the quotient for the cases in which the mask is on
            q = (a * 1.0) / b if not engine.E.possible(
                engine.to_z3_bool(b == 0)) else div_safe(a, safe)
            return q
    return f(*xs)


def div_safe(a, b):
    return SymFloat(engine.real_e(a) / engine.real_e(b))


def box(x):
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def reduce_(f, x, axis, keepdims, identity, initial, name, d):
    nd = x.ndim
    if axis is None:
        axes = tuple(range(nd))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(operator.index(a) for a in axes)
        for a in axes:
            if not -nd <= a < nd:
                raise np.AxisError(a, nd)
        axes = tuple(a % nd for a in axes)
    rest = [a for a in range(nd) if a not in axes]
    shape = [x.shape[a] for a in rest]
    t = x.transpose(rest + list(axes)).reshape(shape + [-1]) if x.size else \
        np.empty(shape + [0], dtype=object)
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        row = list(t[i])
        if initial is not np._NoValue and initial is not None:
            row = [initial] + row
        if not row:
            if identity is None:
                raise ValueError('zero-size array to reduction operation %s '
                                 'which has no identity' % name)
            o[i] = number(d, identity)
            continue
        acc = row[0] if len(row) > 1 else clean(row[0], d)
        if len(row) == 1 and name in ('logical_and', 'logical_or'):
            acc = truth(acc)
        for v in row[1:]:
            acc = f(acc, v)
        o[i] = acc
    if keepdims:
        o = o.reshape([1 if a in axes else x.shape[a] for a in range(nd)])
    return o


def dot_(a, b, matmul=False):
    cls = a if _sub(a) else (
        b if _sub(b) else None)
    if symbolic(a) or symbolic(b) or not np.ndim(a) or not np.ndim(b):
        return a * b
    first = a
    a, b = as_sym(a), as_sym(b)
    d = np.result_type(a.dtype, b.dtype)
    x, y = raw(a), raw(b)
    if matmul and (x.ndim > 2 or y.ndim > 2):
        raise Unsupported('matmul of stacks')
    ax = 0 if y.ndim == 1 else y.ndim - 2
    if x.shape[-1] != y.shape[ax]:
        raise ValueError('shapes %s and %s not aligned' % (x.shape, y.shape))
    y2 = np.moveaxis(y, ax, 0)
    n = x.shape[-1]
    shape = x.shape[:-1] + y2.shape[1:]
    o = np.empty(shape, dtype=object)
    x2 = x.reshape(-1, n) if n else x.reshape(
        (int(np.prod(x.shape[:-1])), 0))
    y2 = y2.reshape(n, -1) if n else y2.reshape(
        (0, int(np.prod(y2.shape[1:]))))
    flat = np.empty((x2.shape[0], y2.shape[1]), dtype=object)
    for i in range(x2.shape[0]):
        for j in range(y2.shape[1]):
            flat[i, j] = clean(linear(x2[i], y2[:, j]), d)
    o = flat.reshape(shape)
    out = wrap(o, d)
    if matmul and cls is not None:
        return cls.__array_wrap__(out)
    if not matmul and _sub(first) and out.ndim:
        # the first one decides on the type
        out = out.view(type(first))
        out.__array_finalize__(first)
        return out
    return raw(out)[()] if out.ndim == 0 else out


def linear(xs, ys):
    """sum of products; zeros are left out"""
    terms = []
    const = None
    for p, q in zip(xs, ys):
        if not symbolic(p) and not symbolic(q):
            const = p * q if const is None else const + p * q
            continue
        if (not symbolic(p) and p == 0) or (not symbolic(q) and q == 0):
            continue
        if not symbolic(p) and p == 1:
            terms.append(q)
        elif not symbolic(q) and q == 1:
            terms.append(p)
        else:
            terms.append(_mulr(p, q))
    if not terms:
        return const if const is not None else np.float64(0)
    if builtins.all(isinstance(t, SymFloat) for t in terms):
        e = z3.Sum([t.e for t in terms]) if len(terms) > 1 else terms[0].e
        if const is not None and const != 0:
            e = e + engine.real_e(const)
        return SymFloat(e)
    acc = terms[0] if const is None or const == 0 else const + terms[0]
    for t in terms[1:]:
        acc = acc + t
    return acc


def strided(buffer, shape, strides, cls=None, checked=True):
    r = raw(as_sym(buffer)) if not isinstance(buffer, SymArr) else raw(buffer)
    d = buffer.dtype
    if strides is None:
        out = r.reshape(-1)[:builtins.int(np.prod(shape))].reshape(shape)
    else:
        shape = tuple(operator.index(s) for s in shape)
        strides = tuple(operator.index(s) for s in strides)
        if checked:
            out = np.ndarray.__new__(np.ndarray, shape, dtype=object, buffer=r,
                                     strides=strides) \
                if False else _checked_strided(r, shape, strides)
        else:
            out = _checked_strided(r, shape, strides)
    out = wrap(out, d)
    if cls is not None and cls not in (SymArr, np.ndarray):
        return out.view(cls)
    return out


def _checked_strided(r, shape, strides):
    """as_strided which does not leave the memory of r"""
    lo = hi = 0
    for n, s in zip(shape, strides):
        if n == 0:
            return np.empty(shape, dtype=object)
        if s < 0:
            lo += (n - 1) * s
        else:
            hi += (n - 1) * s
    mylo = sum((n - 1) * s for n, s in zip(r.shape, r.strides) if s < 0)
    myhi = sum((n - 1) * s for n, s in zip(r.shape, r.strides) if s > 0)
    if not r.size or lo < mylo or hi > myhi:
        raise ValueError('strides is incompatible with shape of requested '
                         'array and size of buffer')
    return np.lib.stride_tricks.as_strided(r, shape, strides)


class FlatBytes(object):
    """bytes, some of which are those of symbolic numbers: runs of numbers of
    a type, and runs of given bytes"""
    _sym_bytes = bytes

    def __init__(self, values, dtype, runs=None):
        self.runs = [r for r in (
            runs if runs is not None else [(list(values), np.dtype(dtype))])
            if len(r[0])]

    @property
    def values(self):
        return self.one()[0]

    @property
    def dtype(self):
        return self.one()[1]

    def one(self):
        """all as one run"""
        if not self.runs:
            return [], np.dtype(np.uint8)
        if builtins.any(r[1] != self.runs[0][1] for r in self.runs):
            raise Unsupported('bytes of several types')
        return [v for r in self.runs for v in r[0]], self.runs[0][1]

    def __len__(self):
        return builtins.sum(len(v) * d.itemsize for v, d in self.runs)

    @staticmethod
    def of(x):
        if isinstance(x, FlatBytes):
            return x.runs
        if isinstance(x, ByteArray):
            return x.frozen().runs
        if isinstance(x, (bytes, bytearray, memoryview)):
            return [([builtins.int(v) for v in bytes(x)], np.dtype(np.uint8))]
        raise TypeError("can't concat %s to bytes" % type(x).__name__)

    def as_bytes(self, kind):
        return self if kind is bytes else ByteArray(self)

    def __add__(self, o):
        if isinstance(o, str):
            raise TypeError("can't concat str to bytes")
        return FlatBytes(None, None, self.runs + FlatBytes.of(o)).simple()

    def __radd__(self, o):
        return FlatBytes(None, None, FlatBytes.of(o) + self.runs).simple()

    def simple(self):
        """real bytes when all are known"""
        if self.runs and builtins.all(d == np.uint8 for _, d in self.runs) \
                and not builtins.any(symbolic(x) for v, _ in self.runs
                                     for x in v):
            return bytes([builtins.int(x) for v, _ in self.runs for x in v])
        return self if self.runs else b''

    def byte(self, i):
        for v, d in self.runs:
            n = len(v) * d.itemsize
            if i < n:
                p = byte_parts(v[i // d.itemsize], d.itemsize)
                b = p[i % d.itemsize]
                return b.to_int() if isinstance(b, SymBV) else b
            i -= n
        raise IndexError('index out of range')

    def __getitem__(self, i):
        if not isinstance(i, slice):
            i = operator.index(i)
            return self.byte(i + len(self) if i < 0 else i)
        a, b, s = i.indices(len(self))
        if s != 1:
            raise Unsupported('steps over bytes')
        out = []
        for v, d in self.runs:
            k, n = d.itemsize, len(v) * d.itemsize
            lo, hi = builtins.max(a, 0), builtins.min(b, n)
            if lo < hi:
                if lo % k == 0 and hi % k == 0:
                    out.append((v[lo // k:hi // k], d))
                else:
                    bs = []
                    for j in range(lo // k, -(-hi // k)):
                        bs.extend(byte_parts(v[j], k))
                    o = lo - lo // k * k
                    out.append((bs[o:o + hi - lo], np.dtype(np.uint8)))
            a, b = a - n, b - n
        return FlatBytes(None, None, out).simple()

    def __iter__(self):
        return iter([self.byte(i) for i in range(len(self))])

    def same(self, o):
        """byte by byte"""
        if isinstance(o, (FlatBytes, ByteArray, bytes, bytearray)):
            o = FlatBytes(None, None, FlatBytes.of(o))
            if len(o) != len(self):
                return False
            if [(len(v), d) for v, d in self.runs] == [
                    (len(v), d) for v, d in o.runs]:
                return engine.And(True, *[
                    x == y for (v, _), (u, _) in zip(self.runs, o.runs)
                    for x, y in zip(v, u)])
            return engine.And(True, *[x == y for x, y in zip(self, o)])
        return NotImplemented

    __eq__ = same

    def __ne__(self, o):
        r = self.same(o)
        return r if r is NotImplemented else engine.Not(r) \
            if is_sym(r) else not r

    def __hash__(self):
        raise Unsupported('hash of symbolic bytes')

    def tobytes(self):
        return self


class ByteArray(object):
    """a bytearray whose memory can be seen as an array"""
    _sym_bytes = bytearray

    def __init__(self, x=b'', *a):
        if isinstance(x, builtins.int):
            x = bytes(x)
        elif isinstance(x, str):
            x = x.encode(*a)
        elif not isinstance(x, (FlatBytes, ByteArray, bytes, bytearray)):
            x = bytes(x)
        x = FlatBytes(None, None, FlatBytes.of(x))
        self.exported = False
        self.mem = self.words(x)

    @staticmethod
    def words(x):
        """as machine words when there is a whole number of them"""
        d = np.dtype(np.uint64 if len(x) % 8 == 0 else np.uint8)
        out = np.empty(len(x) // d.itemsize, dtype=object)
        if d.itemsize == 1:
            out[:] = list(x)
            return wrap(out, d)
        vals = []
        for v, e in x.runs:
            vals.append(raw(reinterpret(wrap(_obj(v), e), d)) if (
                e != d and len(v) * e.itemsize % 8 == 0) else
                None if e != d else _obj(v))
        if builtins.any(v is None for v in vals):
            vals = [raw(reinterpret(wrap(_obj(list(x)), np.uint8), d))]
        if vals:
            out[:] = np.concatenate(vals)
        return wrap(out, d)

    def __len__(self):
        return self.mem.size * self.mem.dtype.itemsize

    def frozen(self):
        return FlatBytes(list(raw(self.mem)), self.mem.dtype)

    def as_bytes(self, kind):
        return self.frozen().simple() if kind is bytes else ByteArray(self)

    def __getitem__(self, i):
        r = self.frozen()[i]
        return ByteArray(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        if not isinstance(i, slice) or i != slice(None):
            raise Unsupported('a part of a bytearray')
        if isinstance(v, str):
            raise TypeError('can assign only bytes, buffers, or iterables of '
                            'ints in range(0, 256)')
        new = self.words(FlatBytes(None, None, FlatBytes.of(v)))
        if new.shape == self.mem.shape and new.dtype == self.mem.dtype:
            raw(self.mem)[...] = raw(new)
        elif self.exported:
            raise BufferError('Existing exports of data: object cannot be '
                              're-sized')
        else:
            self.mem = new

    def __eq__(self, o):
        return self.frozen() == o

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def view(self, d):
        self.exported = True
        if d == self.mem.dtype:
            return self.mem[:]
        raise Unsupported('a bytearray seen as %s' % d)


def _obj(vs):
    o = np.empty(len(vs), dtype=object)
    o[:] = vs
    return o


def byte_parts(v, k, little=True):
    """the k bytes of an unsigned number"""
    if isinstance(v, SymBV):
        return [SymBV(z3.Extract(8 * i + 7, 8 * i, v.e)) for i in range(k)]
    if isinstance(v, SymInt):
        return [SymInt((v.e / (256 ** i)) % 256) for i in range(k)]
    u = builtins.int(v) % 256 ** k
    return [np.int64((u >> 8 * i) & 255) for i in range(k)]


def reinterpret(x, d):
    """view with another dtype, along the last axis"""
    s = x.dtype
    if s.kind not in 'iu' or d.kind not in 'iu':
        raise Unsupported('view of %s as %s' % (s, d))
    r = raw(x)
    flat = []
    rows = r.reshape(-1, r.shape[-1]) if r.ndim else r.reshape(1, 1)
    if (r.shape[-1] * s.itemsize) % d.itemsize:
        raise ValueError('When changing to a larger dtype, its size must be a '
                         'divisor of the total size in bytes of the last axis '
                         'of the array.')
    for row in rows:
        bs = []
        for v in row:
            bs.extend(byte_parts(v, s.itemsize))
        out = []
        for i in range(0, len(bs), d.itemsize):
            out.append(from_parts(bs[i:i + d.itemsize], d))
        flat.append(out)
    m = (r.shape[-1] * s.itemsize) // d.itemsize
    o = np.empty((len(flat), m), dtype=object)
    for i, row in enumerate(flat):
        o[i] = row
    out = wrap(o.reshape(r.shape[:-1] + (m,)), d)
    if type(x) is not SymArr:
        return SymArr.__array_wrap__(x, out)
    return out


def from_parts(bs, d):
    if d.itemsize == 1:
        return clean(bs[0], d) if not isinstance(bs[0], SymBV) else \
            bs[0].to_int()
    if not builtins.any(symbolic(b) for b in bs):
        v = sum(builtins.int(b) << (8 * i) for i, b in enumerate(bs))
        return number(d, v)
    es = []
    for b in bs:
        if isinstance(b, SymBV):
            es.append(b.e)
        elif isinstance(b, SymInt):
            es.append(z3.Int2BV(b.e, 8))
        else:
            es.append(z3.BitVecVal(builtins.int(b), 8))
    e = z3.Concat(*es[::-1])
    if d.itemsize == 8 and d.kind == 'u':
        return SymBV(e)
    return SymInt(z3.BV2Int(e, d.kind == 'i'))


# ---------------------------------------------------------------------------
# functions which are not ufuncs
# ---------------------------------------------------------------------------

def np_full(shape, value, dtype):
    shape = tuple(operator.index(s) for s in (
        shape if isinstance(shape, (tuple, list, np.ndarray)) else (shape,)))
    d = np.dtype(dtype)
    if d.kind not in 'fiubc':
        return np.full(shape, value, dtype)
    o = np.empty(shape, dtype=object)
    v = store(value, d)
    for i in np.ndindex(*shape):
        o[i] = v
    return wrap(o, d)


def np_zeros(shape, dtype=float, order='C', **k):
    d = np.dtype(dtype if dtype is not None else float)
    if d.kind not in 'fiubc':
        return np.zeros(shape, dtype)
    return np_full(shape, 0, d)


def np_ones(shape, dtype=float, order='C', **k):
    return np_full(shape, 1, dtype or float)


def np_empty(shape, dtype=float, order='C', **k):
    return SymArr(shape, dtype or float)


def _like(fill):
    def f(a, dtype=None, order='K', subok=True, shape=None):
        b = as_sym(a)
        out = fill(shape if shape is not None else b.shape, dtype or b.dtype)
        if subok and _sub(a):
            return SymArr.__array_wrap__(a, out)
        return out
    return f


def where_(c, *xy):
    if not xy:
        return np.nonzero(plain_index(as_sym(c)))
    x, y = xy
    d = np.result_type(*[sample(v) for v in xy])
    c, xs, ys = [raw(as_sym(v)) if isinstance(v, (np.ndarray, list, tuple))
                 else box(v) for v in (c, x, y)]
    c, xs, ys = np.broadcast_arrays(c, xs, ys)
    o = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        t = truth(c[i])
        o[i] = clean(ite(t, xs[i], ys[i]) if is_sym(t) else
                     (xs[i] if t else ys[i]), d)
    return wrap(o, d)


def concat_(arrs, axis=0, out=None, dtype=None, casting=None):
    arrs = list(arrs)
    if builtins.any(isinstance(a, SymRec) for a in arrs):
        return records(arrs)
    ss = [as_sym(a) for a in arrs]
    d = np.result_type(*[s.dtype for s in ss])
    r = np.concatenate([raw(s) for s in ss], axis=axis)
    res = wrap(r, d)
    if builtins.any(s.dtype != d for s in ss):
        res = elementwise(lambda v: clean(v, d), res, d)
    return res


def vstack_(arrs, **k):
    arrs = [as_sym(a) for a in arrs]
    return concat_([a.reshape(1, -1) if a.ndim < 2 else a for a in arrs], 0)


def hstack_(arrs, **k):
    arrs = [as_sym(a) for a in arrs]
    arrs = [a.reshape(-1) if a.ndim == 0 else a for a in arrs]
    return concat_(arrs, 0 if arrs[0].ndim == 1 else 1)


def arange_(*a, **k):
    def one(x):
        if isinstance(x, SymInt):
            return x.__index__()
        if isinstance(x, SymFloat):
            # only whole numbers have a definite number of steps
            n = x.to_int()
            if n == x:
                return float(n.__index__())
            raise Unsupported('np.arange over fractions')
        return x
    return np.arange(*[one(x) for x in a], **k)


def outer_(a, b, out=None):
    a, b = as_sym(a), as_sym(b)
    return np.multiply(a.reshape(-1, 1), b.reshape(1, -1))


def stack_(arrs, axis=0, **k):
    arrs = [as_sym(a) for a in arrs]
    nd = arrs[0].ndim + 1
    ax = axis % nd
    return concat_([a.reshape(a.shape[:ax] + (1,) + a.shape[ax:])
                    for a in arrs], ax)


def array_(a, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    if isinstance(a, TD) or getattr(a, '_sym_td', False):
        return a
    r = as_sym(a, dtype) if (_contains_sym(a) or isinstance(a, np.ndarray)) \
        else np.array(a, dtype)
    if isinstance(r, SymArr):
        if copy and (r is a or r.base is not None or isinstance(a, SymArr)):
            ld = r.dtype
            r = np.ndarray.copy(r)
            r._ld = ld
        while r.ndim < ndmin:
            r = r[None]
        return r
    return np.array(r, copy=copy, ndmin=ndmin)


def any_(a, axis=None, out=None, keepdims=False, **k):
    return np.logical_or.reduce(as_sym(a), axis=axis, keepdims=keepdims)


def all_(a, axis=None, out=None, keepdims=False, **k):
    return np.logical_and.reduce(as_sym(a), axis=axis, keepdims=keepdims)


def norm_(x, ord=None, axis=None, keepdims=False):
    x = as_sym(x)
    a = np.abs(x)
    if ord in (None, 2, 'fro'):
        if axis is None and ord == 2 and x.ndim == 2:
            raise Unsupported('spectral norm')
        s = np.add.reduce(a * a, axis=axis if axis is None or isinstance(
            axis, tuple) else axis, keepdims=keepdims)
        return np.sqrt(s) if isinstance(s, np.ndarray) else sqrt_(s)
    if ord == 1 and (axis is not None or x.ndim == 1):
        return np.add.reduce(a, axis=axis, keepdims=keepdims)
    if ord == np.inf and (axis is not None or x.ndim == 1):
        return np.maximum.reduce(a, axis=axis, keepdims=keepdims)
    raise Unsupported('np.linalg.norm ord')


def pad_(a, pad_width, mode='constant', **kw):
    s = as_sym(a)
    if mode != 'constant' or not isinstance(s, SymArr):
        if mode in ('edge', 'reflect', 'symmetric', 'wrap'):
            idx = np.arange(s.size).reshape(s.shape)
            p = np.pad(idx, pad_width, mode, **kw)
            return wrap(raw(s).reshape(-1)[p], s.dtype)
        raise Unsupported('np.pad mode')
    v = kw.get('constant_values', 0)
    if isinstance(v, (tuple, list)):
        raise Unsupported('np.pad values')
    idx = np.arange(1, s.size + 1).reshape(s.shape)
    p = np.pad(idx, plain_index(pad_width) if not isinstance(
        pad_width, (tuple, list)) else pad_width, 'constant')
    flat = np.empty(s.size + 1, dtype=object)
    flat[0] = store(v, s.dtype)
    flat[1:] = raw(s).reshape(-1)
    return wrap(flat[p], s.dtype)


def packbits_(a, axis=None, bitorder='big'):
    s = as_sym(a)
    if s.dtype.kind not in 'iub':
        raise TypeError('Expected an input array of integer or boolean data '
                        'type')
    if axis is None:
        s = s.reshape(-1)
        axis = 0
    r = np.moveaxis(raw(s), axis, -1)
    n = -(-r.shape[-1] // 8)
    o = np.empty(r.shape[:-1] + (n,), dtype=object)
    for i in np.ndindex(*r.shape[:-1]):
        row = [truth(v) for v in r[i]] + [False] * (8 * n - r.shape[-1])
        for k in range(n):
            bits = row[8 * k:8 * k + 8]
            if bitorder == 'little':
                bits = bits[::-1]
            if not builtins.any(is_sym(b) for b in bits):
                o[i + (k,)] = np.int64(sum(
                    bool(b) << (7 - j) for j, b in enumerate(bits)))
            else:
                o[i + (k,)] = SymBV(z3.Concat(*[
                    z3.If(engine.to_z3_bool(b), z3.BitVecVal(1, 1),
                          z3.BitVecVal(0, 1)) for b in bits]))
    return wrap(np.moveaxis(o, -1, axis), np.uint8)


def unpackbits_(a, axis=None, count=None, bitorder='big'):
    s = as_sym(a)
    if axis is None:
        s = s.reshape(-1)
        axis = 0
    r = np.moveaxis(raw(s), axis, -1)
    o = np.empty(r.shape[:-1] + (8 * r.shape[-1],), dtype=object)
    for i in np.ndindex(*r.shape):
        v = r[i]
        for j in range(8):
            k = i[:-1] + (8 * i[-1] + j,)
            sh = 7 - j if bitorder == 'big' else j
            if isinstance(v, SymBV):
                o[k] = SymBool(z3.Extract(sh, sh, v.e) == 1).as_int()
            elif isinstance(v, SymInt):
                o[k] = SymInt((v.e / 2 ** sh) % 2)
            else:
                o[k] = np.int64((builtins.int(v) >> sh) & 1)
    return wrap(np.moveaxis(o, -1, axis), np.uint8)


def frombuffer_(b, dtype=float, count=-1, offset=0):
    if isinstance(b, ByteArray):
        return b.view(np.dtype(dtype))
    if isinstance(b, FlatBytes):
        d = np.dtype(dtype)
        if len(b) % d.itemsize:
            raise ValueError('buffer size must be a multiple of element size')
        if builtins.any(r[1] != b.runs[0][1] for r in b.runs):
            return reinterpret(wrap(_obj(list(b)), np.uint8), d)
        r = np.empty(len(b.values), dtype=object)
        r[:] = b.values
        x = wrap(r, b.dtype)
        if d == b.dtype:
            return x
        return reinterpret(x, d)
    if isinstance(b, (wire.ScalarBytes, wire.DataBytes)):
        return wire.from_buffer(b, dtype)
    return np.frombuffer(b, dtype, count, offset)


def linspace_(start, stop, num=50, endpoint=True, retstep=False, **k):
    if not (is_sym(start) or is_sym(stop)):
        return np.linspace(start, stop, num, endpoint=endpoint,
                           retstep=retstep, **k)
    return LNP.linspace(start, stop, num, endpoint, retstep, **k)


def partition_indices(a, kth, axis=-1, **k):
    """np.argpartition: in the order in which numpy's introselect leaves them
    (the smaller ones, and the larger ones, are not sorted)"""
    s = as_sym(a)
    if s.ndim != 1:
        raise Unsupported('np.argpartition of several axes')
    n = s.shape[0]
    kk = operator.index(kth)
    if not -n <= kk < n:
        raise ValueError('kth(=%d) out of bounds (%d)' % (kk, n))
    if kk < 0:
        kk += n
    v, t = list(raw(s)), list(range(n))

    def less(i, j):
        return bool(v[t[i]] < v[t[j]])

    def swap(i, j):
        t[i], t[j] = t[j], t[i]
    if kk < 3:
        for i in range(kk + 1):
            m = i
            for j in range(i + 1, n):
                if less(j, m):
                    m = j
            swap(i, m)
        return np.array(t)
    if s.dtype.kind in 'fc' and kk == n - 1:
        m = 0
        for j in range(1, n):
            if not less(j, m):
                m = j
        swap(kk, m)
        return np.array(t)
    low, high = 0, n - 1
    if n > 64:
        raise Unsupported('np.argpartition of more than 64 elements')
    while low + 1 < high:
        ll, hh = low + 1, high
        mid = low + (high - low) // 2
        if less(high, mid):
            swap(high, mid)
        if less(high, low):
            swap(high, low)
        if less(low, mid):
            swap(low, mid)
        swap(mid, low + 1)
        while True:
            ll += 1
            while less(ll, low):
                ll += 1
            hh -= 1
            while less(low, hh):
                hh -= 1
            if hh < ll:
                break
            swap(ll, hh)
        swap(low, hh)
        if hh >= kk:
            high = hh - 1
        if hh <= kk:
            low = ll
    if high == low + 1 and less(high, low):
        swap(high, low)
    return np.array(t)


def linear_map(matrix, x, axis=-1, dtype=np.float64):
    """matrix applied to x along an axis"""
    s = as_sym(x)
    r = np.moveaxis(raw(s), axis, -1)
    m = matrix.shape[0]
    o = np.empty(r.shape[:-1] + (m,), dtype=object)
    cplx = np.iscomplexobj(matrix) or s.dtype.kind == 'c'
    d = np.dtype(complex) if cplx else np.dtype(dtype)
    for i in np.ndindex(*r.shape[:-1]):
        row = r[i]
        for k in range(m):
            if not cplx:
                o[i + (k,)] = clean(linear(matrix[k], row), d)
            else:
                mr, mi = matrix[k].real, matrix[k].imag
                re = [v.re if isinstance(v, SymComplex) else np.real(v)
                      if not is_sym(v) else v for v in row]
                im = [v.im if isinstance(v, SymComplex) else
                      (0.0 if is_sym(v) else np.imag(v)) for v in row]
                mr = np.where(np.abs(mr) < 1e-15, 0, mr)
                mi = np.where(np.abs(mi) < 1e-15, 0, mi)
                o[i + (k,)] = SymComplex(
                    linear(mr, re) - linear(mi, im),
                    linear(mr, im) + linear(mi, re))
    return wrap(np.moveaxis(o, -1, axis), d)


_matrices = {}


def by_matrix(real, key, n):
    """the matrix of a linear function of the real library"""
    key = key + (n,)
    if key not in _matrices:
        m = real(np.eye(n)).T
        if not np.iscomplexobj(m):
            m = np.where(np.abs(m) < 1e-15, 0.0, m)
        _matrices[key] = m
    return _matrices[key]


def fit(s, n, axis):
    """truncate or pad with zeros, as the transforms do"""
    if n is None or s.shape[axis] == n:
        return s
    r = np.moveaxis(s, axis, -1)
    if r.shape[-1] > n:
        r = r[..., :n]
    else:
        r = concat_([r, np_zeros(r.shape[:-1] + (n - r.shape[-1],), r.dtype)],
                    -1)
    return np.moveaxis(r, -1, axis)


class FFT(object):
    @staticmethod
    def rfft(a, n=None, axis=-1, norm=None):
        if is_concrete(a) and not isinstance(a, SymArr):
            return np.fft.rfft(a, n, axis, norm)
        s = fit(as_sym(a), n, axis)
        k = s.shape[axis]
        return linear_map(by_matrix(lambda x: np.fft.rfft(x, norm=norm),
                                    ('rfft', norm), k), s, axis)

    @staticmethod
    def irfft(a, n=None, axis=-1, norm=None):
        if is_concrete(a) and not isinstance(a, SymArr):
            return np.fft.irfft(a, n, axis, norm)
        s = as_sym(a)
        if n is None:
            n = 2 * (s.shape[axis] - 1)
        s = fit(s, n // 2 + 1, axis)
        k = s.shape[axis]
        re = by_matrix(lambda x: np.fft.irfft(x, n, norm=norm),
                       ('irfft', norm, n), k)
        im = by_matrix(lambda x: np.fft.irfft(x * 1j, n, norm=norm),
                       ('irffti', norm, n), k)
        return linear_map(re, s.real, axis) + linear_map(im, s.imag, axis)

    @staticmethod
    def fft(a, n=None, axis=-1, norm=None):
        if is_concrete(a) and not isinstance(a, SymArr):
            return np.fft.fft(a, n, axis, norm)
        s = fit(as_sym(a), n, axis)
        return linear_map(by_matrix(lambda x: np.fft.fft(x, norm=norm),
                                    ('fft', norm), s.shape[axis]), s, axis)

    @staticmethod
    def ifft(a, n=None, axis=-1, norm=None):
        if is_concrete(a) and not isinstance(a, SymArr):
            return np.fft.ifft(a, n, axis, norm)
        s = fit(as_sym(a), n, axis)
        return linear_map(by_matrix(lambda x: np.fft.ifft(x, norm=norm),
                                    ('ifft', norm), s.shape[axis]), s, axis)

    def __getattr__(self, name):
        return getattr(np.fft, name)


class Linalg(object):
    norm = staticmethod(norm_)

    def __getattr__(self, name):
        return getattr(np.linalg, name)


def clip_(a, a_min=None, a_max=None, out=None, **k):
    if not _contains_sym(a):
        return np.clip(a, a_min, a_max, out=out, **k)
    if symbolic(a):
        return _clip(a, a_min, a_max)
    s = elementwise(lambda v: _clip(v, a_min, a_max), as_sym(a), a.dtype) \
        if np.ndim(a_min) == 0 and np.ndim(a_max) == 0 else np.maximum(
            np.minimum(a, a_max), a_min)
    if out is not None:
        out[...] = s
        return out
    if _sub(a):
        return a.__array_wrap__(s)
    return s


def argmax_(a, axis=None, out=None, **k):
    s = as_sym(a)
    r = raw(s)
    if axis is None:
        return first_best(list(r.reshape(-1)), operator.gt)
    m = np.moveaxis(r, axis, -1)
    o = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = first_best(list(m[i]), operator.gt)
    return wrap(o, np.int64)


def argmin_(a, axis=None, out=None, **k):
    s = as_sym(a)
    r = raw(s)
    if axis is None:
        return first_best(list(r.reshape(-1)), operator.lt)
    m = np.moveaxis(r, axis, -1)
    o = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = first_best(list(m[i]), operator.lt)
    return wrap(o, np.int64)


def first_best(xs, better):
    best, arg = xs[0], np.int64(0)
    for i, x in enumerate(xs[1:], 1):
        c = better(x, best)
        arg = ite(c, SymInt(z3.IntVal(i)), arg) if is_sym(c) else (
            np.int64(i) if c else arg)
        best = ite(c, x, best) if is_sym(c) else (x if c else best)
    return arg


def diff_(a, n=1, axis=-1, **k):
    if k or n != 1:
        raise Unsupported('np.diff options')
    s = as_sym(a)
    sl = [slice(None)] * s.ndim
    lo, hi = list(sl), list(sl)
    lo[axis], hi[axis] = slice(None, -1), slice(1, None)
    return s[tuple(hi)] - s[tuple(lo)]


def product_(a, *r, **k):
    return np.prod(a, *r, **k)


def median_(a, *r, **k):
    raise Unsupported('np.median')


HOOKS = {
    np.where: where_, np.concatenate: concat_, np.stack: stack_,
    np.vstack: vstack_, np.hstack: hstack_, np.outer: outer_,
    np.arange: arange_,
    np.row_stack: vstack_,
    np.linalg.norm: norm_, np.pad: pad_, np.packbits: packbits_,
    np.unpackbits: unpackbits_, np.any: any_, np.all: all_, np.clip: clip_,
    np.argmax: argmax_, np.argmin: argmin_, np.diff: diff_,
    np.dot: lambda a, b, out=None: dot_(a, b),
    np.zeros_like: _like(np_zeros), np.ones_like: _like(np_ones),
    np.empty_like: _like(np_empty),
    np.fft.rfft: FFT.rfft, np.fft.irfft: FFT.irfft, np.fft.fft: FFT.fft,
    np.fft.ifft: FFT.ifft, np.argpartition: partition_indices,
    np.argsort: lambda a, axis=-1, kind=None, order=None:
        np.ndarray.argsort(raw(as_sym(a)), axis, 'stable'),
    np.real: lambda x: as_sym(x).real, np.imag: lambda x: as_sym(x).imag,
    np.iscomplexobj: lambda x: as_sym(x).dtype.kind == 'c',
    np.isrealobj: lambda x: as_sym(x).dtype.kind != 'c',
    np.round: lambda a, decimals=0, out=None: as_sym(a).round(decimals),
    np.around: lambda a, decimals=0, out=None: as_sym(a).round(decimals),
    np.median: median_,
    np.lib.stride_tricks.as_strided:
        lambda x, shape=None, strides=None, subok=False, writeable=True:
        strided(x, shape, strides, None, checked=False),
    np.result_type: lambda *a: np.result_type(*[
        x.dtype if isinstance(x, SymArr) else x for x in a]),
    np.histogram: median_, np.interp: median_, np.correlate: median_,
}
FORBIDDEN = {'percentile', 'quantile', 'nanmean', 'einsum', 'interp', 'lexsort',
             'searchsorted', 'digitize', 'bincount', 'partition', 'sort',
             'lstsq', 'svd', 'inv', 'unique', 'histogram', 'correlate',
             'convolve'}

LNP = lnp.LNp()
_UFUNC_TYPE = np.ufunc


def _operators():
    """an array on the left of a symbol: numpy leaves these to the symbol"""
    def make(name, u):
        old = getattr(np.ndarray, name)

        def op(self, o):
            if isinstance(o, (engine.Sym, Weird)):
                return apply_ufunc(u, '__call__', (self, o), {})
            return old(self, o)
        op.__name__ = name
        return op
    for n, u in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply),
                 ('truediv', np.true_divide), ('mod', np.remainder),
                 ('floordiv', np.floor_divide), ('pow', np.power),
                 ('lt', np.less), ('le', np.less_equal), ('gt', np.greater),
                 ('ge', np.greater_equal), ('eq', np.equal),
                 ('ne', np.not_equal), ('and', np.bitwise_and),
                 ('or', np.bitwise_or), ('xor', np.bitwise_xor)):
        n = '__%s__' % n
        if n not in SymArr.__dict__:
            setattr(SymArr, n, make(n, u))


_operators()


class SymRec(np.recarray):
    """record arrays; fields of numbers may hold symbols"""

    def __new__(cls, shape, dtype=None, **k):
        fields, logical = [], {}
        for f in dtype:
            d = np.dtype(f[1])
            rest = tuple(f[2:])
            if rest == (1,):
                rest = ()
            if d.kind in 'fiubc' and not d.subdtype:
                logical[f[0]] = d
                d = np.dtype(object)
            fields.append((f[0], d) + rest)
        out = np.recarray.__new__(cls, shape, dtype=fields, **k)
        for n, d in logical.items():
            if out.size > 10000:
                break  # None, which nothing can be done with
            np.ndarray.__getitem__(np.ndarray.view(out, np.ndarray), n)[
                ...] = d.type(0).item()
        object.__setattr__(out, '_logical', logical)
        return out

    def __array_finalize__(self, obj):
        object.__setattr__(self, '_logical', getattr(obj, '_logical', {}))

    def _field(self, name):
        plain = np.ndarray.view(self, np.ndarray)
        if plain.dtype.type is np.record:
            plain = np.ndarray.view(plain, np.dtype((np.void, plain.dtype)))
        r = plain[name]
        d = self._logical.get(name)
        return r if d is None else wrap(r, d)

    def __getattribute__(self, name):
        if name[:1] != '_' and name in (
                np.ndarray.__getattribute__(self, 'dtype').names or ()):
            return self._field(name)
        return np.recarray.__getattribute__(self, name)

    def __getitem__(self, i):
        if isinstance(i, str):
            return self._field(i)
        if isinstance(i, (builtins.int, np.integer, SymInt)) and \
                self.ndim == 1:
            return SymRecord(self, operator.index(i))
        return np.recarray.__getitem__(self, plain_index(i))

    def __setitem__(self, i, v):
        if isinstance(i, str):
            self._field(i)[...] = v
            return
        if isinstance(v, SymRecord):
            v = v.rec[v.i:v.i + 1] if v.i != -1 else v.rec[-1:]
        if isinstance(v, SymRec):
            v = np.ndarray.view(v, np.ndarray)
        np.ndarray.__setitem__(self, plain_index(i), v)


class SymRecord(object):
    def __init__(self, rec, i):
        if not -len(rec) <= i < len(rec):
            raise IndexError('index %d is out of bounds' % i)
        self.rec, self.i = rec, i

    def __getitem__(self, name):
        return self.rec._field(name)[self.i]

    def __setitem__(self, name, v):
        f = self.rec._field(name)
        if isinstance(f, SymArr) and f.ndim == 1 and isinstance(
                v, np.ndarray) and v.size == 1:
            v = raw(v).reshape(-1)[0]
        f[self.i] = v


def records(arrs):
    """concatenated"""
    out = np.concatenate([np.ndarray.view(a, np.ndarray) for a in arrs])
    out = np.ndarray.view(out, SymRec)
    object.__setattr__(out, '_logical', [
        a for a in arrs if isinstance(a, SymRec)][0]._logical)
    return out


class ANp(object):
    """stands in for the numpy module"""
    ndarray = SymArr
    recarray = SymRec
    timedelta64 = TD
    fft = FFT()
    linalg = Linalg()
    zeros = staticmethod(np_zeros)
    ones = staticmethod(np_ones)
    empty = staticmethod(np_empty)
    full = staticmethod(lambda shape, value, dtype=None, order='C': np_full(
        shape, value, dtype or infer(box(value))))
    zeros_like = staticmethod(_like(np_zeros))
    ones_like = staticmethod(_like(np_ones))
    empty_like = staticmethod(_like(np_empty))
    concatenate = staticmethod(concat_)
    frombuffer = staticmethod(frombuffer_)
    fromstring = staticmethod(
        lambda b, dtype=float, count=-1, sep='': frombuffer_(b, dtype)
        if not isinstance(b, (bytes, str)) else np.fromstring(
            b, dtype, count, sep=sep))
    linspace = staticmethod(linspace_)
    product = staticmethod(product_)

    def __init__(self, random=None):
        self.__dict__['__name__'] = 'numpy'
        if random is not None:
            self.__dict__['random'] = random

    def asarray(self, a, dtype=None, order=None):
        if isinstance(a, SymArr):
            return as_sym(a, dtype)
        if isinstance(a, np.ndarray) or _contains_sym(a):
            return as_sym(a, dtype)
        return np.asarray(a, dtype)

    def asanyarray(self, a, dtype=None):
        return a if isinstance(a, SymArr) else self.asarray(a, dtype)

    def ascontiguousarray(self, a, dtype=None):
        return self.array(a, dtype)

    array = staticmethod(array_)

    def __getattr__(self, name):
        if name == 'integer':
            from .shadow import NpInteger
            return NpInteger
        r = getattr(np, name)
        if isinstance(r, _UFUNC_TYPE):
            return Ufunc(r)
        if name in ('lib', 'stride_tricks'):
            return Sub(r)
        if not callable(r) or isinstance(r, type):
            return r
        hook = None
        try:
            hook = HOOKS.get(r)
        except TypeError:
            pass

        def f(*a, **k):
            s = any(_contains_sym(x) for x in a) or any(
                _contains_sym(x) for x in k.values())
            if not s:
                return r(*a, **k)
            if hook is not None:
                return hook(*a, **k)
            a = [as_sym(x) if isinstance(x, (list, tuple)) and _contains_sym(x)
                 and name not in ('vstack', 'hstack', 'dstack', 'block',
                                  'column_stack', 'broadcast_arrays',
                                  'meshgrid') else x for x in a]
            return r(*a, **k)
        f.__name__ = name
        return f


class Ufunc(object):
    """a ufunc applied to arrays and symbols"""

    def __init__(self, real):
        self.__dict__['real'] = real
        self.__dict__['__name__'] = real.__name__

    def __call__(self, *a, **k):
        if any(isinstance(x, SymArr) for x in a):
            return self.real(*a, **k)
        if any(symbolic(x) for x in a) or any(
                isinstance(x, (list, tuple)) and _contains_sym(x) for x in a) \
                or isinstance(k.get('where'), SymArr) \
                or isinstance(k.get('out'), SymArr):
            return apply_ufunc(self.real, '__call__', a, k)
        r = self.real(*a, **k)
        if self.__name__ in ('log', 'exp', 'log1p', 'expm1') and \
                isinstance(r, float):
            engine.known_exp(self.__name__, float(a[0]), r)
        return r

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __eq__(self, o):
        return o is self or o is self.real or (
            isinstance(o, Ufunc) and o.real is self.real)

    def __hash__(self):
        return hash(self.real)


class Sub(object):
    def __init__(self, real):
        self.__dict__['real'] = real

    def __getattr__(self, name):
        if name == 'as_strided':
            return lambda x, shape=None, strides=None, subok=False, \
                writeable=True: strided(x, shape, strides, type(x) if subok
                                        else None, checked=False)
        if name == 'stride_tricks':
            return Sub(np.lib.stride_tricks)
        r = getattr(self.real, name)
        try:
            return HOOKS.get(r, r)
        except TypeError:
            return r
