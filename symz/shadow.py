"""
Loads the modules of /repo/zounds from their current source into a shadow
namespace in which numpy is replaced by a symbolic-aware proxy and a handful of
builtins (int, float, len, max, min, range) understand symbolic values.  The
source text itself is compiled unchanged.
"""
import builtins
import importlib
import importlib.util
import os
import sys
import types
import numpy as np
from . import engine
from .engine import Sym, SymInt, SymFloat, SymBool, SymBV, is_sym, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if cls is not Int:
            return type.__instancecheck__(cls, x)
        return isinstance(x, builtins.int) or (
            isinstance(x, SymInt) and not isinstance(x, engine.SymNpInt))

    def __subclasscheck__(cls, c):
        if cls is not Int:
            return type.__subclasscheck__(cls, c)
        return issubclass(c, builtins.int)

    def __call__(cls, *args, **kwargs):
        if cls is Int:
            return sym_int(*args, **kwargs)
        return type.__call__(cls, *args, **kwargs)

    def __eq__(cls, other):
        return other is cls or (cls is Int and other is builtins.int)

    def __hash__(cls):
        return hash(builtins.int)


def _number_text(x):
    """the number a text was made of"""
    if isinstance(x, (str, bytes)):
        from . import wire
        t = x.decode('latin-1') if isinstance(x, bytes) else x
        if '@@SYM' in t:
            return wire.atom(t.strip())
    return None


def sym_int(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        x = args[0]
        t = _number_text(x)
        if isinstance(t, SymFloat):
            raise ValueError('invalid literal for int() with base 10')
        x = t if t is not None else x
        if isinstance(x, SymInt):
            return SymInt(x.e) if isinstance(x, engine.SymNpInt) else x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, SymFloat):
            return x.__trunc__()
        if isinstance(x, SymBV):
            return x.to_int()
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1 \
                and is_sym(x.reshape(-1)[0]):
            return sym_int(x.reshape(-1)[0])
        f = getattr(type(x), '__sym_int__', None)
        if f is not None:
            return f(x)
        # user classes: their own __int__ may produce a symbolic value
        if not isinstance(x, (str, bytes, builtins.int, builtins.float,
                              np.generic, np.ndarray)):
            m = getattr(type(x), '__int__', None)
            if m is not None:
                r = m(x)
                if is_sym(r):
                    return r
    return builtins.int(*args, **kwargs)


class Int(builtins.int, metaclass=_IntMeta):
    dtype = np.dtype(builtins.int)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if cls is not Float:
            return type.__instancecheck__(cls, x)
        return isinstance(x, builtins.float) or isinstance(x, SymFloat)

    def __call__(cls, *args, **kwargs):
        if cls is Float:
            return sym_float(*args, **kwargs)
        obj = cls.__new__(cls, *args, **kwargs)
        if type.__instancecheck__(cls, obj) or type(obj).__dict__.get(
                '_symz_of') is cls:
            obj.__init__(*args, **kwargs)
        return obj

    def __eq__(cls, other):
        return other is cls or (cls is Float and other is builtins.float)

    def __hash__(cls):
        return hash(builtins.float)


def sym_subfloat(cls, value):
    """an instance of a subclass of float whose value is symbolic"""
    dyn = cls.__dict__.get('_symz_twin')
    if dyn is None:
        ns = {}
        for c in reversed(cls.__mro__):
            if c in (object, builtins.float, Float):
                continue
            ns.update({k: v for k, v in c.__dict__.items()
                       if k not in ('__dict__', '__weakref__', '__module__',
                                    '__float__', '__new__', '_symz_twin')})
        ns['__class__'] = property(lambda self: cls)
        ns['_symz_of'] = cls
        dyn = type(cls.__name__, (SymFloat,), ns)
        cls._symz_twin = dyn
    obj = dyn.__new__(dyn)
    SymFloat.__init__(obj, engine.real_e(value))
    return obj


def sym_float(*args):
    if len(args) == 1:
        x = args[0]
        t = _number_text(x)
        x = t if t is not None else x
        if isinstance(x, SymFloat) or isinstance(x, engine.Weird):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymFloat(engine.real_e(x))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1 \
                and is_sym(x.reshape(-1)[0]):
            return sym_float(x.reshape(-1)[0])
    return builtins.float(*args)


class Float(builtins.float, metaclass=_FloatMeta):
    dtype = np.dtype(builtins.float)

    def __new__(cls, *args):
        if args and isinstance(args[0], (SymFloat, SymInt)):
            return sym_subfloat(cls, args[0])
        return builtins.float.__new__(cls, *args)


class _NpIntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.integer, engine.SymNpInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, np.integer)


class NpInteger(metaclass=_NpIntMeta):
    """stands in for np.integer"""


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        if cls not in (Bytes, ByteArray):
            return type.__instancecheck__(cls, x)
        return isinstance(x, cls.real) or \
            getattr(x, '_sym_bytes', None) is cls.real

    def __subclasscheck__(cls, c):
        if cls not in (Bytes, ByteArray):
            return type.__subclasscheck__(cls, c)
        return issubclass(c, cls.real)

    def __call__(cls, *args, **kwargs):
        if cls not in (Bytes, ByteArray):
            return type.__call__(cls, *args, **kwargs)
        if len(args) == 1 and hasattr(args[0], '_sym_bytes'):
            return args[0].as_bytes(cls.real)
        if cls is ByteArray:
            from . import anp
            return anp.ByteArray(*args, **kwargs)
        return cls.real(*args, **kwargs)

    def __eq__(cls, other):
        return other is cls or (cls in (Bytes, ByteArray) and
                                other is cls.real)

    def __hash__(cls):
        return hash(builtins.bytes)


class Bytes(builtins.bytes, metaclass=_BytesMeta):
    real = builtins.bytes


class ByteArray(builtins.bytearray, metaclass=_BytesMeta):
    real = builtins.bytearray


def sym_len(x):
    if getattr(x, '_sym_array', False) or hasattr(type(x), '__sym_len__'):
        return x.__sym_len__()
    f = getattr(type(x), '__len__', None)
    if f is not None and str(getattr(type(x), '__module__', '')).startswith(
            'zounds') and not isinstance(x, np.ndarray):
        r = f(x)
        if is_sym(r):
            return r
    try:
        return builtins.len(x)
    except TypeError:
        if f is not None:
            r = f(x)
            if is_sym(r):
                return r
        raise


def _minmax(name, args, kwargs):
    real = getattr(builtins, name)
    if kwargs:
        return real(*args, **kwargs)
    if len(args) == 1:
        try:
            items = list(args[0])
        except TypeError:
            return real(*args)
    else:
        items = list(args)
    if items and any(is_sym(i) for i in items) and all(
            engine.is_number(i) for i in items) and not any(
            engine._inf(i) for i in items):
        acc = items[0]
        for i in items[1:]:
            c = (i > acc) if name == 'max' else (i < acc)
            acc = engine.ite(engine.as_bool(c), i, acc)
        return acc
    return real(items) if len(args) == 1 else real(*args)


def sym_max(*args, **kwargs):
    return _minmax('max', args, kwargs)


def sym_min(*args, **kwargs):
    return _minmax('min', args, kwargs)


class SymRange(object):
    def __init__(self, *args):
        if len(args) == 1:
            self.start, self.stop, self.step = 0, args[0], 1
        elif len(args) == 2:
            self.start, self.stop, self.step = args[0], args[1], 1
        else:
            self.start, self.stop, self.step = args
        if is_sym(self.step):
            if bool(self.step == 0):
                raise ValueError('range() arg 3 must not be zero')
            self.up = bool(self.step > 0)
        else:
            self.up = self.step > 0

    def __iter__(self):
        i = self.start
        while True:
            c = (i < self.stop) if self.up else (i > self.stop)
            if not c:
                return
            yield i
            i = i + self.step

    def __len__(self):
        return builtins.len(list(self))


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.range)

    def __call__(cls, *args):
        if any(is_sym(a) for a in args):
            return SymRange(*args)
        return builtins.range(*args)


class Range(metaclass=_RangeMeta):
    pass


def sym_round(x, *a):
    return builtins.round(x, *a)


def sym_sum(it, *start):
    acc = start[0] if start else 0
    for i in it:
        acc = acc + i
    return acc


def make_builtins(world):
    d = dict(builtins.__dict__)
    d.update({
        'int': Int, 'float': Float, 'bytes': Bytes, 'bytearray': ByteArray,
        'len': sym_len, 'max': sym_max,
        'min': sym_min, 'range': Range,
        'sum': sym_sum,
        '__import__': world.import_, 'print': lambda *a, **k: None,
    })
    return d


class World(object):
    """one shadow copy of the zounds package"""

    def __init__(self, np_proxy, overrides=None, package='zounds',
                 replace=None):
        self.np = np_proxy
        self.overrides = dict(overrides or {})
        self.modules = {}
        self.builtins = make_builtins(self)
        self.package = package
        self.files = set()
        self.replace = replace or {}

    # -- import machinery
    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            absname = importlib.util.resolve_name('.' * level + name, pkg)
        else:
            absname = name
        top = absname.split('.')[0]
        if absname in self.overrides or top in self.overrides:
            if fromlist:
                if absname in self.overrides:
                    return self.overrides[absname]
                return importlib.import_module(absname)
            if top in self.overrides:
                return self.overrides[top]
        if top == self.package:
            m = self.load(absname)
            if not fromlist:
                return self.load(top) if not level else m
            for f in fromlist:
                if f == '*':
                    continue
                if not hasattr(m, f):
                    try:
                        self.load(absname + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if top == 'numpy':
            if not fromlist:
                return self.np
            cur = self.np
            for p in absname.split('.')[1:]:
                cur = getattr(cur, p)
            return cur
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _find(self, absname):
        rel = absname.replace('.', '/')
        p = os.path.join(REPO, rel, '__init__.py')
        if os.path.exists(p):
            return p, True
        p = os.path.join(REPO, rel + '.py')
        if os.path.exists(p):
            return p, False
        raise ModuleNotFoundError(absname)

    def load(self, absname, full=False):
        if absname in self.modules:
            return self.modules[absname]
        parent, _, child = absname.rpartition('.')
        if parent:
            pm = self.load(parent)
            if absname in self.modules:
                return self.modules[absname]
        path, is_pkg = self._find(absname)
        m = types.ModuleType(absname)
        m.__file__ = path
        m.__package__ = absname if is_pkg else parent
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[absname] = m
        if absname == self.package and not full:
            # executed only when an attribute of the top level is needed
            def lazy(name):
                if name.startswith('__') or m.__dict__.get('_loading'):
                    raise AttributeError(name)
                m.__dict__['_loading'] = True
                del m.__dict__['__getattr__']
                self._exec(m, path)
                return getattr(m, name)
            m.__dict__['__getattr__'] = lazy
            return m
        try:
            self._exec(m, path)
        except BaseException:
            del self.modules[absname]
            raise
        if parent:
            setattr(pm, child, m)
        return m

    def _exec(self, m, path):
        with open(path, 'rb') as f:
            src = f.read()
        code = compile(src, path, 'exec', dont_inherit=True)
        self.files.add(path)
        exec(code, m.__dict__)

    def __getitem__(self, absname):
        return self.load(absname)

    def get(self, dotted):
        """world.get('zounds.timeseries.TimeSlice')"""
        parts = dotted.split('.')
        for k in range(builtins.len(parts), 0, -1):
            try:
                m = self.load('.'.join(parts[:k]))
            except ModuleNotFoundError:
                continue
            for p in parts[k:]:
                m = getattr(m, p)
            return m
        raise ModuleNotFoundError(dotted)
