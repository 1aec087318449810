"""
Runs the Cython extension from its current source, with machine integers as
bit-vectors.  The subset of Cython it is written in (typed locals, typed
buffers, calls of compiler builtins) is translated to Python; anything else is
refused.  C semantics: every assignment to a typed variable converts to its
width, buffers convert what is stored in them.
"""
import ast
import os
import re
import types
import numpy as np
import z3
from . import engine, shadow
from .engine import SymBV, SymInt, Unsupported

PYX = os.path.join(shadow.REPO, 'zounds', 'nputil', 'countbits.pyx')
CTYPES = {
    'int': (32, True), 'long': (64, True), 'short': (16, True),
    'char': (8, True), 'unsigned int': (32, False), 'unsigned long': (64, False),
    'unsigned char': (8, False), 'unsigned short': (16, False),
    'long long': (64, True), 'unsigned long long': (64, False),
    'Py_ssize_t': (64, True), 'size_t': (64, False), 'bint': (32, True),
    'unsigned': (32, False),
    'np.int_t': (64, True), 'np.intp_t': (64, True),
    'np.uint64_t': (64, False), 'np.int64_t': (64, True),
    'np.uint32_t': (32, False), 'np.int32_t': (32, True),
    'np.uint16_t': (16, False), 'np.int16_t': (16, True),
    'np.uint8_t': (8, False), 'np.int8_t': (8, True),
}
FLOATS = {'np.float32_t': 32, 'np.float64_t': 64, 'float': 32, 'double': 64}


def convert(v, t):
    bits, signed = t
    if isinstance(v, SymBV):
        return v.resize(bits, signed)
    if isinstance(v, SymInt):
        return engine.convert_dtype(v, np.dtype(
            '%s%d' % ('int' if signed else 'uint', bits)))
    v = int(v) % 2 ** bits
    return C(v - 2 ** bits if signed and v >= 2 ** (bits - 1) else v, t)


def C(v, t):
    """a constant of a C type; small signed ones stay Python numbers, which is
    what loop counters and sizes are"""
    bits, signed = t
    if signed:
        return v
    return SymBV(z3.BitVecVal(v, bits), False)


class Buffer(object):
    """a typed buffer: a numpy array whose elements are machine numbers"""

    def __init__(self, arr, t, ndim):
        from . import anp
        d = np.dtype('%s%d' % ('int' if t[1] else 'uint', t[0]))
        if getattr(arr, 'dtype', None) != d or arr.ndim != ndim:
            raise ValueError('Buffer dtype mismatch, expected %s but got %s'
                             % (d, getattr(arr, 'dtype', None)))
        self.arr, self.t, self.ndim = arr, t, ndim
        self.raw = anp.raw(arr)

    def _i(self, i):
        i = i if isinstance(i, tuple) else (i,)
        if len(i) != self.ndim:
            raise Unsupported('part of a typed buffer')
        i = tuple(int(k) for k in i)
        for k, n in zip(i, self.arr.shape):
            if not 0 <= k < n:
                raise IndexError('outside of the buffer')
        return i

    def __getitem__(self, i):
        return convert(self.raw[self._i(i)], self.t)

    def __setitem__(self, i, v):
        self.raw[self._i(i)] = convert(v, self.t)

    size = property(lambda self: self.arr.size)
    shape = property(lambda self: self.arr.shape)

    def __len__(self):
        return len(self.arr)


def popcount(bits):
    def f(x):
        x = convert(x, (bits, False))
        e = bit_sum(x.e)
        return SymBV(z3.ZeroExt(32 - e.size(), e), True)
    return f


def bit_sum(e):
    """the number of bits of e which are set"""
    xs = [z3.Extract(i, i, e) for i in range(e.size())]
    while len(xs) > 1:
        xs = [z3.ZeroExt(1, p) + z3.ZeroExt(1, q)
              for p, q in zip(xs[::2], xs[1::2])]
    return xs[0]


class _Types(ast.NodeTransformer):
    """assignments to typed variables convert"""

    def __init__(self, variables):
        self.v = variables

    def conv(self, name, value):
        return ast.Call(ast.Name('__convert', ast.Load()),
                        [value, ast.Constant(self.v[name])], [])

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in self.v:
            n.value = self.conv(n.targets[0].id, n.value)
        elif any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
            raise Unsupported('tuple assignment in Cython')
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and n.target.id in self.v:
            return ast.Assign([ast.Name(n.target.id, ast.Store())], self.conv(
                n.target.id, ast.BinOp(ast.Name(n.target.id, ast.Load()),
                                       n.op, n.value)))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and n.target.id in self.v:
            # C loop variables of the width they need here
            pass
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None:
            n.value = ast.Call(ast.Name('__unbuffer', ast.Load()), [n.value], [])
        return n


BUF = r'np\.ndarray\[\s*([\w.]+)\s*(?:,\s*ndim\s*=\s*(\d+))?[^\]]*\]'


def translate(src):
    """the extension as Python source, and the types of its variables"""
    src = re.sub(r'\\\n\s*', ' ', src)
    src = re.sub(r';[ \t]*$', '', src, flags=re.M)
    names = dict(CTYPES)
    floats = set(FLOATS)
    out = []
    scopes = {}
    current = None
    for line in src.split('\n'):
        s = line.strip()
        indent = line[:len(line) - len(line.lstrip())]
        m = re.match(r'ctypedef\s+(.+?)\s+(\w+)$', s)
        if m:
            if m.group(1) in names:
                names[m.group(2)] = names[m.group(1)]
            elif m.group(1) in floats:
                floats.add(m.group(2))
            else:
                raise Unsupported('Cython: ' + s)
            continue
        if re.match(r'(from\s+\S+\s+)?cimport\b', s) or s.startswith('@cython') \
                or re.match(r'cdef\s+extern\b', s):
            continue
        m = re.match(r'c?p?def\s+(\w+)\s*\((.*)\)\s*:', s)
        if m and s.startswith(('def', 'cpdef')):
            current = m.group(1)
            scopes[current] = {}
            args, pre = [], []
            for a in re.split(r',(?![^\[]*\])', m.group(2)):
                a = a.strip()
                b = re.match(BUF + r'\s*(\w+)$', a)
                if b:
                    t = names.get(b.group(1))
                    if t is None:
                        raise Unsupported('Cython: ' + s)
                    args.append(b.group(3))
                    pre.append('%s = __buffer(%s, %r, %s)' % (
                        b.group(3), b.group(3), t, b.group(2) or 1))
                elif re.match(r'^\w+(\s*=.*)?$', a):
                    args.append(a)
                else:
                    p = a.split()
                    t = names.get(' '.join(p[:-1]))
                    if t is None:
                        raise Unsupported('Cython: ' + s)
                    args.append(p[-1])
                    scopes[current][p[-1]] = t
                    pre.append('%s = %s' % (p[-1], p[-1]))
            out.append('%sdef %s(%s):' % (indent, current, ', '.join(args)))
            out.append(indent + '    pass')
            out.extend(indent + '    ' + p for p in pre)
            continue
        if s.startswith('cdef '):
            b = re.match(r'cdef\s+' + BUF + r'\s*(\w+)\s*=\s*(.*)$', s)
            if b:
                t = names.get(b.group(1))
                if t is None:
                    raise Unsupported('Cython: ' + s)
                out.append('%s%s = __buffer(%s, %r, %s)' % (
                    indent, b.group(3), b.group(4), t, b.group(2) or 1))
                continue
            for t in sorted(names, key=len, reverse=True):
                b = re.match(r'cdef\s+' + re.escape(t).replace(r'\ ', r'\s+') +
                             r'\s+(.*)$', s)
                if b:
                    for part in b.group(1).split(','):
                        v, _, init = part.partition('=')
                        scopes.setdefault(current, {})[v.strip()] = names[t]
                        if init:
                            out.append('%s%s = %s' % (indent, v.strip(),
                                                      init.strip()))
                    break
            else:
                raise Unsupported('Cython: ' + s)
            continue
        if re.match(r'(with\s+nogil|for\s+\w+\s+from|IF |include )', s) \
                or '<' in re.sub(r'<[=<]|\s<\s', '', s):
            raise Unsupported('Cython: ' + s)
        out.append(line)
    return '\n'.join(out), scopes


def module(np_proxy):
    """the extension module, for World A"""
    with open(PYX) as f:
        text, scopes = translate(f.read())
    tree = ast.parse(text)
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            _Types(scopes.get(node.name, {})).visit(node)
    ast.fix_missing_locations(tree)
    m = types.ModuleType('countbits')
    m.__dict__.update(
        __buffer=Buffer, __convert=convert,
        __unbuffer=lambda x: x.arr if isinstance(x, Buffer) else x,
        __builtin_popcountl=popcount(64), __builtin_popcountll=popcount(64),
        __builtin_popcount=popcount(32), np=np_proxy)

    def imp(name, *a, **k):
        if name.split('.')[0] == 'numpy':
            return np_proxy
        return __import__(name, *a, **k)
    m.__dict__['__builtins__'] = dict(vars(__import__('builtins')),
                                      __import__=imp)
    exec(compile(tree, PYX, 'exec'), m.__dict__)
    return m
