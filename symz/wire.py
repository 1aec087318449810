"""
Symbolic bytes: values pass through base64, json and buffers as atoms.  Only
the library functions below are modelled; all of the code of zounds around them
is executed as it is.
"""
import base64
import builtins
import json
import re
import types
import numpy as np
from . import engine
from .engine import SymInt, SymFloat, SymNum, Unsupported, is_sym

_atoms = {}
_re = re.compile('@@SYM([0-9]+)@@')


def token(obj):
    n = len(_atoms)
    _atoms[n] = obj
    return '@@SYM%d@@' % n


def atom(text):
    if isinstance(text, bytes):
        text = text.decode('utf-8')
    m = _re.fullmatch(text)
    if m is not None:
        return _atoms[int(m.group(1))]
    if '@@SYM' in text:
        raise Unsupported('a part of encoded bytes')
    return None


class ScalarBytes(object):
    """the bytes of one symbolic number"""

    def __init__(self, value, dtype):
        self.value, self.dtype = value, np.dtype(dtype)

    def __len__(self):
        return self.dtype.itemsize


class DataBytes(object):
    """the bytes of arrays of symbolic shape, one after another"""

    def __init__(self, parts, dtype):
        self.parts, self.dtype = parts, np.dtype(dtype)

    @property
    def count(self):
        n = 0
        for k, _ in self.parts:
            n = n + k
        return n

    def __sym_len__(self):
        return self.count * self.dtype.itemsize

    def __add__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        if not isinstance(o, DataBytes) or o.dtype != self.dtype:
            raise Unsupported('bytes of different types')
        return DataBytes(self.parts + o.parts, self.dtype)

    def __radd__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        raise Unsupported('bytes')

    def at(self, i):
        off = 0
        offs = []
        for k, f in self.parts:
            offs.append(off)
            off = off + k
        acc = self.parts[-1][1](i - offs[-1])
        for j in builtins.range(len(self.parts) - 2, -1, -1):
            acc = engine.ite(engine.as_bool(i < offs[j + 1]),
                             self.parts[j][1](i - offs[j]), acc)
        return acc


def array_bytes(arr):
    """LazyArr.tobytes"""
    snap, shape = arr._snapshot(), arr.shape
    if builtins.any(is_sym(s) for s in shape[1:]):
        raise Unsupported('bytes of an array with several symbolic axes')

    def f(i):
        idx = []
        for s in shape[:0:-1]:
            idx.append(i % s if s else 0)
            i = i // s if s else 0
        return snap(tuple([i] + idx[::-1]) if shape else ())
    n = shape[0] if shape else 1
    for s in shape[1:]:
        n = n * s
    return DataBytes([(n, f)], arr.dtype)


def from_buffer(b, dtype):
    from . import lnp
    d = np.dtype(dtype)
    if isinstance(b, ScalarBytes):
        if d == b.dtype:
            v = b.value
        elif d.itemsize == b.dtype.itemsize and d.kind in 'iu' \
                and b.dtype.kind in 'iu':
            v = engine.convert_dtype(b.value, d)
        elif b.dtype.itemsize % d.itemsize:
            raise ValueError('buffer size must be a multiple of element size')
        else:
            raise Unsupported('reinterpreted bytes')
        out = np.empty(1, dtype=object)
        out[0] = v
        return out
    if d != b.dtype:
        raise Unsupported('reinterpreted bytes')
    return lnp.LazyArr.from_function((b.count,), lambda idx: b.at(idx[0]), d)


class File(object):
    """reads the items of an encoder one after another"""

    def __init__(self, items):
        self.items = [x.encode() if isinstance(x, str) else x for x in items]

    def read(self, n=None):
        if n is None:
            out = b''
            for x in self.items:
                out = out + x
            self.items = []
            return out
        out = b''
        while self.items and len(out) < n:
            x = self.items[0]
            if not isinstance(x, bytes):
                raise Unsupported('reading a part of array data')
            k = n - len(out)
            out += x[:k]
            if k >= len(x):
                self.items.pop(0)
            else:
                self.items[0] = x[k:]
        return out


def make_base64():
    m = types.ModuleType('base64')
    m.__dict__.update({k: v for k, v in base64.__dict__.items()
                       if not k.startswith('__')})

    def b64encode(x, *a):
        if isinstance(x, (ScalarBytes, DataBytes)):
            return token(x).encode()
        return base64.b64encode(x, *a)

    def b64decode(x, *a, **k):
        o = atom(x) if isinstance(x, (str, bytes)) else None
        return o if o is not None else base64.b64decode(x, *a, **k)
    m.b64encode, m.b64decode = b64encode, b64decode
    return m


def _out(o):
    if isinstance(o, dict):
        return {k: _out(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_out(v) for v in o]
    if isinstance(o, engine.SymNpInt):
        raise TypeError('Object of type int64 is not JSON serializable')
    if isinstance(o, SymFloat):
        return token(SymFloat(o.e))
    if isinstance(o, (SymInt, engine.SymBool)):
        return token(o)
    return o


def _in(o):
    if isinstance(o, dict):
        return {k: _in(v) for k, v in o.items()}
    if isinstance(o, list):
        return [_in(v) for v in o]
    if isinstance(o, str):
        a = atom(o)
        if isinstance(a, engine.Sym):
            return a
    return o


def make_json(real=json):
    m = types.ModuleType('json')
    m.__dict__.update({k: v for k, v in real.__dict__.items()
                       if not k.startswith('__')})
    m.dumps = lambda o, *a, **k: real.dumps(_out(o), *a, **k)
    m.loads = lambda s, *a, **k: _in(real.loads(s, *a, **k))
    return m


def overrides():
    out = {'base64': make_base64(), 'json': make_json()}
    try:
        import ujson
        out['ujson'] = make_json(ujson)
    except ImportError:
        pass
    return out
