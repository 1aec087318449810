"""
World B: numpy arrays of *symbolic shape*.

`LazyArr` stands in for numpy.ndarray (ArrayWithUnits derives from it in the
shadow world).  Its shape entries may be z3 integers and its elements are given
by a function of the index, so one execution covers every length.  Only the
operations the indexing / windowing code needs are modelled; anything else is
reported as Unsupported.
"""
import builtins
import numpy as np
import z3
from . import engine, wire
from .engine import (SymInt, SymFloat, SymBool, is_sym, ite, Unsupported, And,
                     int_e, as_bool)
from .td import TD


def simp(x):
    if isinstance(x, SymInt):
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    if isinstance(x, np.integer):
        return int(x)
    return x


def is_intlike(x):
    return (isinstance(x, (builtins.int, np.integer, SymInt))
            and not isinstance(x, (bool, np.bool_)))


def imax(a, b):
    return simp(ite(as_bool(a >= b), a, b)) if is_sym(a) or is_sym(b) \
        else builtins.max(a, b)


def imin(a, b):
    return simp(ite(as_bool(a <= b), a, b)) if is_sym(a) or is_sym(b) \
        else builtins.min(a, b)


def same(a, b):
    """syntactically / trivially equal sizes"""
    a, b = simp(a), simp(b)
    if not is_sym(a) and not is_sym(b):
        return a == b
    return z3.is_true(z3.simplify(int_e(a) == int_e(b)))


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return simp(r)


def ceil_div(a, b):
    return -((-a) // b)


def slice_bounds(sl, n):
    """numpy semantics of a slice with any (symbolic) bounds on an axis of
    length n; returns (start, step, count)"""
    step = 1 if sl.step is None else sl.step
    for v in (sl.start, sl.stop, step):
        if v is not None and not is_intlike(v):
            raise TypeError('slice indices must be integers or None or have '
                            'an __index__ method')
    if is_sym(step):
        if bool(step == 0):
            raise ValueError('slice step cannot be zero')
        positive = bool(step > 0)
    else:
        if step == 0:
            raise ValueError('slice step cannot be zero')
        positive = step > 0
    lo, hi = (0, n) if positive else (-1, n - 1)

    def norm(v, default):
        if v is None:
            return default
        if is_sym(v) or is_sym(n):
            w = simp(ite(as_bool(v < 0), v + n, v))
            return imin(imax(w, lo), hi)
        if v < 0:
            v = v + n
        return imin(imax(v, lo), hi)
    start = norm(sl.start, 0 if positive else n - 1)
    stop = norm(sl.stop, n if positive else -1)
    if positive:
        count = imax(ceil_div(stop - start, step), 0)
    else:
        count = imax(ceil_div(start - stop, -step), 0)
    return simp(start), step, simp(count)


class Store(object):
    """the memory behind an array: a mutable function of a full index"""
    n = 0

    def __init__(self, shape, fn):
        self.shape = tuple(shape)
        self.fn = fn
        Store.n += 1
        self.id = Store.n


class Rng(object):
    __slots__ = ('axis', 'start', 'step', 'count')

    def __init__(self, axis, start, step, count):
        self.axis, self.start, self.step, self.count = axis, start, step, count


def _full_axes(shape):
    return [Rng(i, 0, 1, s) for i, s in enumerate(shape)]


class Flags(dict):
    @property
    def c_contiguous(self):
        return self['C_CONTIGUOUS']


class _LMeta(type):
    def __instancecheck__(cls, x):
        if type.__instancecheck__(cls, x):
            return True
        return cls is LazyArr and isinstance(x, np.ndarray)


class LazyArr(metaclass=_LMeta):
    _sym_array = True
    __array_ufunc__ = None  # real numpy arrays defer to our operators

    # -- construction -----------------------------------------------------
    def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None,
                order=None):
        dtype = np.dtype(dtype)
        shape = tuple(simp(s) for s in (
            shape if isinstance(shape, (tuple, list)) else (shape,)))
        for s in shape:
            if bool(s < 0):
                raise ValueError('negative dimensions are not allowed')
        if buffer is None:
            tag = engine.E.fresh_name('uninit')
            f = z3.Function(tag, *([z3.IntSort()] * (len(shape) + 1)))
            return LazyArr._make(
                cls, shape,
                Store(shape, lambda idx: SymInt(f(*[int_e(i) for i in idx])
                                                if idx else z3.Int(tag))),
                dtype)
        return strided(cls, buffer, shape, strides, dtype, checked=True)

    def __init__(self, *a, **k):
        pass

    @staticmethod
    def _make(cls, shape, store, dtype, axes=None, fixed=None, vaxes=None,
              fn=None, contiguous=True, parent=None):
        self = object.__new__(cls)
        self._shape = tuple(simp(s) for s in shape)
        self._store = store
        # per store axis: an int (fixed) or a Rng naming the view axis
        self._axes = axes if axes is not None else _full_axes(shape)
        self._fn = fn
        self.dtype = np.dtype(dtype)
        self._contig = contiguous
        fin = getattr(cls, '__array_finalize__', None)
        if fin is not None and cls is not LazyArr:
            fin(self, parent)
        return self

    @staticmethod
    def from_function(shape, fn, dtype=np.float64):
        return LazyArr._make(LazyArr, shape, Store(shape, fn), dtype)

    @staticmethod
    def fresh(name, shape, dtype=np.float64, sort=None):
        f = z3.Function(name, *([z3.IntSort()] * len(shape)
                                + [z3.IntSort()]))
        arr = LazyArr.from_function(
            shape, lambda idx: SymInt(f(*[int_e(i) for i in idx])), dtype)
        return arr

    # -- attributes ---------------------------------------------------------
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return prod(self._shape)

    @property
    def itemsize(self):
        return self.dtype.itemsize or 8

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def flags(self):
        return Flags(C_CONTIGUOUS=self._contig)

    @property
    def strides(self):
        if not self._contig:
            st = []
            for v in range(self.ndim):
                s = 0
                full = contiguous_strides(self._store.shape, self.itemsize)
                for ax, st_ in zip(self._axes, full):
                    if isinstance(ax, Rng) and ax.axis == v:
                        s = st_ * ax.step
                st.append(simp(s))
            if self._fn is not None:
                raise Unsupported('strides of a strided view')
            return tuple(st)
        return contiguous_strides(self._shape, self.itemsize)

    @property
    def T(self):
        if self.ndim < 2:
            return self.view(type(self))
        shape = self._shape[::-1]
        return LazyArr._make(
            type(self), shape, Store(shape, lambda idx: self.at(idx[::-1])),
            self.dtype, contiguous=False, parent=self)

    def __sym_len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __len__(self):
        return int(self.__sym_len__())

    def __iter__(self):
        i = 0
        while bool(i < self._shape[0]):
            yield self[i]
            i += 1

    # -- element access -------------------------------------------------------
    def at(self, idx):
        idx = tuple(idx)
        if self._fn is not None:
            return self._fn(idx)
        sidx = []
        for ax in self._axes:
            if isinstance(ax, Rng):
                sidx.append(simp(ax.start + idx[ax.axis] * ax.step))
            else:
                sidx.append(ax)
        return self._store.fn(tuple(sidx))

    def item(self, *a):
        if len(a) == 0:
            return self.at((0,) * self.ndim)
        return self.at(a if not isinstance(a[0], tuple) else a[0])

    # -- views ----------------------------------------------------------------
    def view(self, cls=None, *a, **k):
        if cls is None:
            cls = type(self)
        if not isinstance(cls, type) or not issubclass(cls, LazyArr):
            raise Unsupported('view as dtype')
        return LazyArr._make(cls, self._shape, self._store, self.dtype,
                             axes=self._axes, fn=self._fn,
                             contiguous=self._contig, parent=self)

    def _norm_index(self, index):
        if not isinstance(index, tuple):
            if isinstance(index, list) and index and any(
                    isinstance(x, slice) for x in index):
                index = tuple(index)
            else:
                index = (index,)
        n_real = 0
        n_ell = 0
        for x in index:
            if x is Ellipsis:
                n_ell += 1
            elif x is not None:
                n_real += 1
        if n_ell > 1:
            raise IndexError('an index can only have a single ellipsis')
        if n_real > self.ndim:
            raise IndexError('too many indices for array: array is %d-'
                             'dimensional, but %d were indexed'
                             % (self.ndim, n_real))
        out = []
        for x in index:
            if x is Ellipsis:
                out.extend([slice(None)] * (self.ndim - n_real))
            else:
                out.append(x)
        if not n_ell:
            out.extend([slice(None)] * (self.ndim - n_real))
        return out

    def _basic(self, index):
        """resolve a basic index to [(kind, ...)] per position"""
        plan = []
        axis = 0
        for x in index:
            if x is None:
                plan.append(('new',))
                continue
            n = self._shape[axis]
            if isinstance(x, slice):
                start, step, count = slice_bounds(x, n)
                plan.append(('rng', axis, start, step, count))
            elif is_intlike(x):
                if bool((x >= n) | (x < -n) if is_sym(x) or is_sym(n)
                        else (x >= n or x < -n)):
                    raise IndexError('index %s is out of bounds for axis %d'
                                     % (x, axis))
                v = simp(ite(as_bool(x < 0), x + n, x)) if is_sym(x) \
                    else (x + n if x < 0 else int(x))
                plan.append(('fix', axis, simp(v)))
            elif isinstance(x, (list, np.ndarray)):
                plan.append(('fancy', axis, x))
            else:
                raise IndexError(
                    'only integers, slices (`:`), ellipsis (`...`), '
                    'numpy.newaxis (`None`) and integer or boolean arrays '
                    'are valid indices')
            axis += 1
        return plan

    def __getitem__(self, index):
        return LazyArr._getitem(self, index)

    def _getitem(self, index):
        plan = self._basic(self._norm_index(index))
        if any(p[0] == 'fancy' for p in plan):
            return self._fancy(plan)
        newshape = []
        vmap = {}
        contig = self._contig and self._fn is None
        leading = True
        for p in plan:
            if p[0] == 'new':
                newshape.append(1)
            elif p[0] == 'rng':
                vmap[p[1]] = (len(newshape), p[2], p[3], p[4])
                if not (same(p[4], self._shape[p[1]])):
                    if not leading or not (not is_sym(p[3]) and p[3] == 1):
                        contig = False
                leading = False
                newshape.append(p[4])
            else:
                vmap[p[1]] = p[2]
                if not leading:
                    contig = False
        if len(newshape) == 0:
            return self.at([vmap[a] for a in range(self.ndim)])
        if self._fn is not None:
            old = self

            def fn(idx):
                o = []
                for a in range(old.ndim):
                    m = vmap[a]
                    o.append(simp(m[1] + idx[m[0]] * m[2])
                             if isinstance(m, tuple) else m)
                return old._fn(tuple(o))
            return LazyArr._make(type(self), newshape, self._store, self.dtype,
                                 fn=fn, axes=[], contiguous=False, parent=self)
        axes = []
        for ax in self._axes:
            if not isinstance(ax, Rng):
                axes.append(ax)
                continue
            m = vmap[ax.axis]
            if isinstance(m, tuple):
                va, start, step, count = m
                axes.append(Rng(va, simp(ax.start + start * ax.step),
                                simp(ax.step * step), count))
            else:
                axes.append(simp(ax.start + m * ax.step))
        return LazyArr._make(type(self), newshape, self._store, self.dtype,
                             axes=axes, contiguous=contig, parent=self)

    def _fancy(self, plan):
        fancies = [p for p in plan if p[0] == 'fancy']
        if len(fancies) > 1:
            raise Unsupported('several fancy indices')
        positions = [i for i, p in enumerate(plan)
                     if p[0] in ('fancy', 'fix')]
        if positions != list(range(positions[0], positions[-1] + 1)):
            raise Unsupported('separated advanced indices')
        items = list(fancies[0][2])
        axis = fancies[0][1]
        n = self._shape[axis]
        vals = []
        for x in items:
            if isinstance(x, (bool, np.bool_)):
                raise Unsupported('boolean mask')
            if not is_intlike(x):
                raise IndexError('arrays used as indices must be of integer '
                                 '(or boolean) type')
            if bool((x >= n) | (x < -n) if is_sym(x) or is_sym(n)
                    else (x >= n or x < -n)):
                raise IndexError('index out of bounds')
            vals.append(simp(ite(as_bool(x < 0), x + n, x)))
        newshape, src = [], {}
        for p in plan:
            if p[0] == 'new':
                newshape.append(1)
            elif p[0] == 'rng':
                src[p[1]] = ('rng', len(newshape), p[2], p[3])
                newshape.append(p[4])
            elif p[0] == 'fix':
                src[p[1]] = ('fix', p[2])
            else:
                src[p[1]] = ('fancy', len(newshape))
                newshape.append(len(vals))
        snapshot = self._snapshot()

        def fn(idx):
            o = []
            for a in range(len(src)):
                s = src[a]
                if s[0] == 'rng':
                    o.append(simp(s[2] + idx[s[1]] * s[3]))
                elif s[0] == 'fix':
                    o.append(s[1])
                else:
                    k = idx[s[1]]
                    if not vals:
                        o.append(0)
                    elif not is_sym(k):
                        o.append(vals[k])
                    else:
                        acc = vals[-1]
                        for j in range(len(vals) - 2, -1, -1):
                            acc = ite(as_bool(k == j), vals[j], acc)
                        o.append(simp(acc))
            return snapshot(tuple(o))
        return LazyArr._make(type(self), newshape, Store(newshape, fn),
                             self.dtype, parent=self)

    def _snapshot(self):
        """the current contents as a pure function"""
        if self._fn is not None:
            return self._fn
        f = self._store.fn
        axes = self._axes

        def at(idx):
            return f(tuple(simp(ax.start + idx[ax.axis] * ax.step)
                           if isinstance(ax, Rng) else ax for ax in axes))
        return at

    def __setitem__(self, index, value):
        return LazyArr._setitem(self, index, value)

    def _setitem(self, index, value):
        plan = self._basic(self._norm_index(index))
        if any(p[0] == 'fancy' for p in plan):
            return self._set_fancy(plan, value)
        target = LazyArr._getitem(self.view(LazyArr), index)
        if not getattr(target, '_sym_array', False):
            # a single element
            plan = self._basic(self._norm_index(index))
            target = LazyArr._getitem(
                self.view(LazyArr),
                tuple(slice(p[2], p[2] + 1) for p in plan))
        if target._fn is not None:
            raise Unsupported('write through a strided view')
        store = target._store
        old = store.fn
        axes = list(target._axes)
        shape = target._shape
        if getattr(value, '_sym_array', False):
            vat = value._snapshot()
            vshape = value.shape
            if len(vshape) > len(shape):
                raise Unsupported('broadcast of a larger array')
            off = len(shape) - len(vshape)
            for a, b in zip(vshape, shape[off:]):
                if not same(a, b) and not (not is_sym(a) and a == 1) \
                        and bool(a != b):
                    raise ValueError('could not broadcast input array')

            def val(vidx):
                return vat(tuple(
                    0 if (not is_sym(s) and s == 1) else i
                    for i, s in zip(vidx[off:], vshape)))
        elif isinstance(value, np.ndarray) and value.size > 1:
            raise Unsupported('assignment of a concrete array')
        else:
            def val(vidx):
                return value

        def fn(sidx):
            conds = []
            vidx = [0] * len(shape)
            for ax, i in zip(axes, sidx):
                if isinstance(ax, Rng):
                    d = i - ax.start
                    if not is_sym(ax.step) and ax.step == 1:
                        conds += [d >= 0, d < ax.count]
                        vidx[ax.axis] = simp(d)
                    else:
                        q = d // ax.step
                        conds += [q * ax.step == d, q >= 0, q < ax.count]
                        vidx[ax.axis] = simp(q)
                else:
                    conds.append(i == ax)
            return ite(as_bool(And(*conds)), val(vidx), old(sidx))
        store.fn = fn

    def _set_fancy(self, plan, value):
        if getattr(value, '_sym_array', False) or (
                isinstance(value, np.ndarray) and value.size > 1):
            raise Unsupported('fancy assignment of an array')
        if self._fn is not None or len(self._axes) != self.ndim or any(
                not isinstance(a, Rng) for a in self._axes):
            raise Unsupported('fancy assignment through a view')
        store, old, axes = self._store, self._store.fn, list(self._axes)
        where = {}
        for p in plan:
            if p[0] == 'fancy':
                n = self._shape[p[1]]
                vals = []
                for x in list(p[2]):
                    if bool(engine.as_bool(engine.Or(x >= n, x < -n))):
                        raise IndexError('index out of bounds')
                    vals.append(simp(ite(engine.as_bool(x < 0), x + n, x)))
                where[p[1]] = ('fancy', vals)
            elif p[0] != 'new':
                where[p[1]] = p

        def fn(sidx):
            conds = []
            for ax, i in zip(axes, sidx):
                if ax.step != 1:
                    raise Unsupported('fancy assignment through a view')
                i = i - ax.start
                conds += [i >= 0, i < ax.count]
                q = where[ax.axis]
                if q[0] == 'fancy':
                    conds.append(engine.Or(*[i == v for v in q[1]]))
                elif q[0] == 'fix':
                    conds.append(i == q[2])
                else:
                    d = i - q[2]
                    k = d // q[3]
                    conds += [k * q[3] == d, k >= 0, k < q[4]]
            return ite(as_bool(And(*conds)), value, old(sidx))
        store.fn = fn

    # -- methods --------------------------------------------------------------
    def copy(self, order='C'):
        f = self._snapshot()
        return LazyArr._make(type(self), self._shape, Store(self._shape, f),
                             self.dtype, parent=self)

    def __array__(self, *a, **k):
        if not any(is_sym(n) for n in self._shape) and 0 in self._shape:
            return np.zeros(self._shape, self.dtype)
        raise Unsupported('symbolic array handed to real numpy')

    def astype(self, dtype, **kw):
        f = self._snapshot()
        d = np.dtype(dtype)
        if d.kind in 'iu' and self.dtype.kind in 'iu' or d.kind == 'f':
            return LazyArr._make(type(self), self._shape,
                                 Store(self._shape, f), d, parent=self)
        g = f
        return LazyArr._make(
            type(self), self._shape,
            Store(self._shape, lambda i: engine.convert_dtype(g(i), d)), d,
            parent=self)

    def reshape(self, *shape, **kw):
        order = kw.get('order', 'C')
        if order != 'C':
            raise Unsupported('reshape order')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(simp(s) for s in shape)
        known = prod([s for s in shape if is_sym(s) or s != -1])
        total = self.size
        if any((not is_sym(s)) and s == -1 for s in shape):
            fill = simp(total // known)
            shape = tuple(fill if (not is_sym(s) and s == -1) else s
                          for s in shape)
        if len(shape) == self.ndim and all(
                same(a, b) for a, b in zip(shape, self._shape)):
            return self.view(type(self))
        ones = [s for s in shape if is_sym(s) or s != 1]
        mine = [s for s in self._shape if is_sym(s) or s != 1]
        f = self._snapshot()
        if len(ones) == len(mine) and all(
                same(a, b) for a, b in zip(ones, mine)):
            pos = [i for i, s in enumerate(shape) if is_sym(s) or s != 1]
            mypos = [i for i, s in enumerate(self._shape)
                     if is_sym(s) or s != 1]

            def fn(idx):
                o = [0] * self.ndim
                for a, b in zip(mypos, pos):
                    o[a] = idx[b]
                return f(tuple(o))
        else:
            if not same(prod(shape), total):
                if bool(prod(shape) != total):
                    raise ValueError('cannot reshape array')
            old = self._shape

            def fn(idx):
                flat = 0
                for i, s in zip(idx, shape):
                    flat = flat * s + i
                o = []
                for s in old[::-1]:
                    o.append(simp(flat % s))
                    flat = flat // s
                return f(tuple(o[::-1]))
        return LazyArr._make(type(self), shape, Store(shape, fn), self.dtype,
                             parent=self)

    def tobytes(self, order='C'):
        if order != 'C':
            raise Unsupported('order of bytes')
        return wire.array_bytes(self)
    tostring = tobytes

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        """over an axis of concrete size"""
        if axis is None and self.ndim == 1:
            axis = 0
        if out is not None or k or not isinstance(axis, builtins.int):
            raise Unsupported('LazyArr.sum')
        axis %= self.ndim
        n = simp(self.shape[axis])
        if is_sym(n) or n > 64:
            raise Unsupported('sum over an axis of symbolic size')
        snap = self._snapshot()

        def fn(idx):
            v = 0
            for j in builtins.range(n):
                i = idx[:axis] + (j,) + idx[axis + keepdims:]
                v = v + snap(i)
            return v
        shape = self.shape[:axis] + ((1,) if keepdims else ()) + \
            self.shape[axis + 1:]
        return LazyArr._make(type(self), shape, Store(shape, fn),
                             dtype or self.dtype, parent=self)

    def squeeze(self, axis=None):
        keep = [i for i, s in enumerate(self._shape)
                if bool(s != 1)]
        return LazyArr.reshape(self, tuple(self._shape[i] for i in keep))

    def ravel(self):
        return LazyArr.reshape(self, (-1,))
    flatten = ravel

    # -- elementwise ----------------------------------------------------------
    def _op(self, other, name, swap=False):
        u = UFUNCS[name]
        return u(other, self) if swap else u(self, other)

    def __add__(self, o):
        return self._op(o, 'add')

    def __radd__(self, o):
        return self._op(o, 'add', True)

    def __sub__(self, o):
        return self._op(o, 'subtract')

    def __rsub__(self, o):
        return self._op(o, 'subtract', True)

    def __mul__(self, o):
        return self._op(o, 'multiply')

    def __rmul__(self, o):
        return self._op(o, 'multiply', True)

    def __truediv__(self, o):
        return self._op(o, 'divide')

    def __eq__(self, o):
        return self._op(o, 'equal')

    def __ne__(self, o):
        return self._op(o, 'not_equal')

    def __lt__(self, o):
        return self._op(o, 'less')

    def __gt__(self, o):
        return self._op(o, 'greater')

    __hash__ = None

    def __bool__(self):
        if not self._shape or all(not is_sym(s) and s == 1
                                  for s in self._shape):
            return bool(self.at((0,) * self.ndim))
        raise ValueError('The truth value of an array is ambiguous')

    def __repr__(self):
        return '%s(shape=%r)' % (type(self).__name__, self._shape)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __getattr__(self, name):
        if name.startswith('__') or name in (
                'dimensions', '_store', '_shape', '_fn', 'frequency'):
            raise AttributeError(name)
        if hasattr(np.ndarray, name):
            raise Unsupported('ndarray.%s on an array of symbolic shape' % name)
        raise AttributeError(name)


def contiguous_strides(shape, itemsize):
    out = []
    acc = itemsize
    for s in tuple(shape)[::-1]:
        out.append(simp(acc))
        acc = acc * s
    return tuple(out[::-1])


OOB = []


def strided(cls, a, shape, strides, dtype, checked, subok=False):
    """np.ndarray(buffer=a, strides=..) / as_strided: the memory of `a` (from
    its first element) read with other strides"""
    if not getattr(a, '_sym_array', False):
        raise Unsupported('strided view of a concrete array')
    if not a._contig:
        raise Unsupported('strided view of a non contiguous array')
    shape = tuple(simp(s) for s in shape)
    item = a.itemsize
    st = []
    for s in strides:
        s = simp(s)
        st.append(simp(s // item) if not is_sym(s)
                  else SymInt(z3.simplify(div_exact(s.e, item))))
    # extent check
    last = 0
    nonempty = True
    for n, s in zip(shape, st):
        last = last + (n - 1) * s
        nonempty = And(nonempty, n > 0)
    if checked:
        for n in shape:
            if bool(n < 0):
                raise ValueError('negative dimensions are not allowed')
        if bool(engine.as_bool(And(nonempty, last >= a.size))):
            raise ValueError('strides is incompatible with shape of requested '
                             'array and size of buffer')
    else:
        # as_strided performs no check: reading past the end is a defect
        OOB.append(engine.Implies(nonempty, And(last < a.size, last >= 0)))
    f = a._snapshot()
    trailing = a._shape[1:]
    row = prod(trailing)

    def fn(idx):
        flat = 0
        for i, s in zip(idx, st):
            flat = flat + i * s
        flat = simp(flat)
        if len(a._shape) == 1:
            return f((flat,))
        o = []
        for s in trailing[::-1]:
            o.append(simp(flat % s))
            flat = simp(flat // s)
        o.append(flat)
        return f(tuple(o[::-1]))
    out = LazyArr._make(LazyArr, shape, Store(shape, fn), dtype,
                        contiguous=False)
    out._fn = fn
    return out if cls is LazyArr else out.view(cls)


def div_exact(e, k):
    """e / k for e known to be a multiple of k (a product with k)"""
    if k == 1:
        return e
    q = z3.simplify(z3.IntVal(0) + e, som=True)
    # try to divide the polynomial syntactically
    terms = q.children() if z3.is_add(q) else [q]
    out = []
    for t in terms:
        if z3.is_int_value(t):
            if t.as_long() % k:
                return e / k
            out.append(z3.IntVal(t.as_long() // k))
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) \
                and t.arg(0).as_long() % k == 0:
            c = t.arg(0).as_long() // k
            rest = t.children()[1:]
            r = rest[0]
            for x in rest[1:]:
                r = r * x
            out.append(c * r)
        else:
            return e / k
    r = out[0]
    for x in out[1:]:
        r = r + x
    return r


# ---------------------------------------------------------------------------
# ufuncs
# ---------------------------------------------------------------------------

class SymUfunc(object):
    def __init__(self, name, scalar):
        self.__name__ = name
        self.real = getattr(np, name)
        self.scalar = scalar
        self.nin = self.real.nin

    def __call__(self, *args, **kwargs):
        for x in args:
            f = getattr(type(x), '__array_ufunc__', None)
            if f is not None and not isinstance(x, np.ndarray) \
                    and not getattr(x, '_sym_array', False) \
                    and not isinstance(x, np.generic):
                return f(x, self, '__call__', *args, **kwargs)
        arrs = [x for x in args if getattr(x, '_sym_array', False)]
        if not arrs:
            return self.real(*args, **kwargs)
        if kwargs:
            raise Unsupported('ufunc keyword arguments')
        args = tuple(from_concrete(x) if isinstance(x, np.ndarray) and x.ndim
                     and x.size <= 4096 else x for x in args)
        arrs = [x for x in args if getattr(x, '_sym_array', False)]
        nd = builtins.max(x.ndim for x in arrs)
        shape = [1] * nd
        for x in arrs:
            off = nd - x.ndim
            for i, s in enumerate(x.shape):
                cur = shape[off + i]
                if not is_sym(cur) and cur == 1:
                    shape[off + i] = s
                elif same(cur, s) or (not is_sym(s) and s == 1):
                    pass
                elif bool(cur != s):
                    raise ValueError('operands could not be broadcast together')
        fs = []
        for x in args:
            if getattr(x, '_sym_array', False):
                snap = x._snapshot()
                off = nd - x.ndim
                dims = x.shape

                def get(idx, snap=snap, off=off, dims=dims):
                    return snap(tuple(
                        0 if (not is_sym(s) and s == 1) else i
                        for i, s in zip(idx[off:], dims)))
                fs.append(get)
            elif isinstance(x, np.ndarray) and x.ndim:
                raise Unsupported('mixed concrete and lazy arrays')
            else:
                fs.append(lambda idx, x=x: x)

        def fn(idx):
            return self.scalar(*[f(idx) for f in fs])
        dt = np.result_type(*[x.dtype for x in arrs])
        res = LazyArr._make(LazyArr, shape, Store(shape, fn), dt)
        for x in args:
            w = getattr(type(x), '__array_wrap__', None)
            if getattr(x, '_sym_array', False) and type(x) is not LazyArr:
                out = res.view(type(x)) if False else LazyArr._make(
                    type(x), shape, res._store, res.dtype, parent=x)
                return out
        return res

    def __getattr__(self, name):
        return getattr(self.real, name)


import operator as _op  # noqa: E402

UFUNCS = {
    'add': SymUfunc('add', _op.add),
    'subtract': SymUfunc('subtract', _op.sub),
    'multiply': SymUfunc('multiply', _op.mul),
    'divide': SymUfunc('divide', _op.truediv),
    'equal': SymUfunc('equal', _op.eq),
    'not_equal': SymUfunc('not_equal', _op.ne),
    'less': SymUfunc('less', _op.lt),
    'greater': SymUfunc('greater', _op.gt),
}


# ---------------------------------------------------------------------------
# the numpy proxy
# ---------------------------------------------------------------------------

def from_concrete(x):
    """a LazyArr over the values of a real array"""
    flat = x.reshape(-1).tolist()

    def fn(idx):
        k = 0
        for i, n in zip(idx, x.shape):
            k = simp(k * n + i)
        if not is_sym(k):
            return flat[k]
        acc = flat[-1]
        for j in range(len(flat) - 2, -1, -1):
            acc = ite(as_bool(k == j), flat[j], acc)
        return acc
    return LazyArr.from_function(x.shape, fn, x.dtype)


def _shape_of(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(shape)
    if isinstance(shape, np.ndarray):
        return tuple(shape.tolist())
    return (shape,)


def const_array(shape, value, dtype):
    shape = _shape_of(shape)
    for s in shape:
        if bool(s < 0):
            raise ValueError('negative dimensions are not allowed')
    return LazyArr._make(LazyArr, shape, Store(shape, lambda idx: value),
                         np.dtype(dtype) if dtype is not None
                         else np.dtype(float))


class RecArray(np.recarray):
    """record arrays whose integer and float fields may hold symbols"""

    def __new__(cls, shape, dtype=None, **k):
        if isinstance(dtype, list):
            def field(t):
                t = np.dtype(t)
                return np.dtype(object) if t.kind in 'iuf' else t
            dtype = [(f[0], field(f[1])) + tuple(f[2:])
                     if f[0] != 'slicedata' else f for f in dtype]
        return np.recarray.__new__(cls, shape, dtype=dtype, **k)


class Noise(object):
    """np.random, where only the number of values drawn matters"""

    def uniform(self, low=0.0, high=1.0, size=None):
        if is_sym(size):
            return LazyArr((size,), float)
        return np.random.uniform(low, high, size)

    def __getattr__(self, name):
        return getattr(np.random, name)


class LNp(object):
    """stands in for the numpy module"""
    random = Noise()
    ndarray = LazyArr
    recarray = RecArray
    timedelta64 = TD

    def __init__(self, path='numpy', real=np):
        self.__dict__['_real'] = real
        self.__dict__['_path'] = path
        self.__dict__['__name__'] = path

    def zeros(self, shape, dtype=float, order='C'):
        return const_array(shape, 0, dtype)

    def ones(self, shape, dtype=float, order='C'):
        return const_array(shape, 1, dtype)

    def empty(self, shape, dtype=float, order='C'):
        return LazyArr(shape, dtype)

    def full(self, shape, value, dtype=None):
        return const_array(shape, value, dtype or float)

    def zeros_like(self, a, dtype=None):
        if getattr(a, '_sym_array', False):
            return const_array(a.shape, 0, dtype or a.dtype).view(type(a))
        return np.zeros_like(a, dtype)

    def asarray(self, a, dtype=None):
        if getattr(a, '_sym_array', False):
            return a.view(LazyArr) if type(a) is not LazyArr else a
        if is_sym(a):
            return LazyArr.from_function((), lambda idx: a)
        return np.asarray(a, dtype)

    def asanyarray(self, a, dtype=None):
        if getattr(a, '_sym_array', False):
            return a
        return np.asanyarray(a, dtype)

    def ascontiguousarray(self, a, dtype=None):
        if getattr(a, '_sym_array', False):
            return a.view(LazyArr) if a._contig else self.array(a)
        return np.ascontiguousarray(a, dtype)

    def array(self, a, dtype=None, copy=True, **k):
        if getattr(a, '_sym_array', False):
            return a.copy().view(LazyArr)
        return np.array(a, dtype, **k)

    def concatenate(self, arrs, axis=0, **k):
        arrs = list(arrs)
        if not any(getattr(a, '_sym_array', False) for a in arrs):
            return np.concatenate(arrs, axis=axis, **k)
        if k:
            raise Unsupported('np.concatenate options')
        arrs = [a if getattr(a, '_sym_array', False) else from_concrete(a)
                for a in map(lambda a: a if getattr(a, '_sym_array', False)
                             else np.asarray(a), arrs)]
        nd = arrs[0].ndim
        ax = axis + nd if axis < 0 else axis
        for a in arrs[1:]:
            if a.ndim != nd:
                raise ValueError('all the input array dimensions must match')
            for d, (x, y) in enumerate(zip(a.shape, arrs[0].shape)):
                if d != ax and not same(x, y) and bool(x != y):
                    raise ValueError('all the input array dimensions except '
                                     'for the concatenation axis must match '
                                     'exactly')
        snaps = [a._snapshot() for a in arrs]
        offs = [0]
        for a in arrs:
            offs.append(simp(offs[-1] + a.shape[ax]))

        def fn(idx):
            i = idx[ax]
            at = lambda j: snaps[j](tuple(idx[:ax]) + (simp(i - offs[j]),) +
                                    tuple(idx[ax + 1:]))
            acc = at(-2 + len(offs))
            for j in range(len(arrs) - 2, -1, -1):
                acc = ite(as_bool(i < offs[j + 1]), at(j), acc)
            return acc
        shape = arrs[0].shape[:ax] + (offs[-1],) + arrs[0].shape[ax + 1:]
        out = LazyArr._make(LazyArr, shape, Store(shape, fn), arrs[0].dtype)
        # numpy keeps the subclass, finalised from nothing
        for a in arrs:
            if type(a) is not LazyArr:
                return LazyArr._make(type(a), shape, out._store, out.dtype,
                                     parent=None)
        return out

    def frombuffer(self, b, dtype=float, *a, **k):
        if isinstance(b, (wire.ScalarBytes, wire.DataBytes)):
            if a or k:
                raise Unsupported('np.frombuffer options')
            return wire.from_buffer(b, dtype)
        return np.frombuffer(b, dtype, *a, **k)

    def fromstring(self, b, dtype=float, *a, **k):
        if isinstance(b, (wire.ScalarBytes, wire.DataBytes)):
            return self.frombuffer(b, dtype, *a, **k)
        return np.fromstring(b, dtype, *a, **k)

    def linspace(self, start, stop, num=50, endpoint=True, retstep=False, **k):
        if not (is_sym(start) or is_sym(stop)):
            return np.linspace(start, stop, num, endpoint=endpoint,
                               retstep=retstep, **k)
        if k or is_sym(num):
            raise Unsupported('np.linspace options')
        div = num - 1 if endpoint else num
        step = (stop - start) * 1.0 / div if div > 0 else float('nan')
        out = np.empty(num, dtype=object)
        out[:] = [start * 1.0 + i * step if i else start * 1.0
                  for i in range(num)]
        return (out, step) if retstep else out

    def ndim(self, a):
        return a.ndim if hasattr(a, 'ndim') else np.ndim(a)

    def cumsum(self, a, *r, **k):
        if isinstance(a, (list, tuple)) and any(is_sym(x) for x in a) \
                and not r and not k:
            out = np.empty(len(a), dtype=object)
            acc = 0
            for i, x in enumerate(a):
                acc = out[i] = acc + x
            return out
        _guard((a,), k, 'cumsum')
        return np.cumsum(a, *r, **k)

    def pad(self, a, pad_width, mode='constant', **kw):
        if not getattr(a, '_sym_array', False):
            return np.pad(a, pad_width, mode, **kw)
        if mode != 'constant':
            raise Unsupported('np.pad mode')
        value = kw.get('constant_values', 0)
        pw = pad_width
        if isinstance(pw, tuple) and not isinstance(pw[0], (tuple, list)):
            pw = [pw] * a.ndim
        elif not isinstance(pw, (tuple, list)):
            pw = [(pw, pw)] * a.ndim
        if len(pw) == 1:
            pw = list(pw) * a.ndim
        for b, c in list(pw)[1:]:
            if is_sym(b) or is_sym(c) or b or c:
                raise Unsupported('np.pad on a trailing axis')
        b, c = pw[0]
        mk = lambda k: const_array((k,) + a.shape[1:], value, a.dtype)
        return self.concatenate([mk(b), a.view(LazyArr), mk(c)])

    def __getattr__(self, name):
        if name in UFUNCS:
            return UFUNCS[name]
        if name == 'integer':
            from .shadow import NpInteger
            return NpInteger
        if name == 'lib':
            return LNp('numpy.lib', np.lib)
        if name == 'stride_tricks':
            return LNpStride()
        r = getattr(self.__dict__['_real'], name)
        if callable(r) and not isinstance(r, type):
            def f(*a, **k):
                _guard(a, k, name)
                return r(*a, **k)
            f.__name__ = name
            return f
        return r

    def product(self, a, *r, **k):
        return np.prod(a, *r, **k)


def _guard(a, k, name):
    for x in list(a) + list(k.values()):
        if getattr(x, '_sym_array', False):
            raise Unsupported('np.%s on an array of symbolic shape' % name)
        if isinstance(x, (list, tuple)):
            for y in x:
                if getattr(y, '_sym_array', False):
                    raise Unsupported(
                        'np.%s on an array of symbolic shape' % name)


class LNpStride(object):
    @staticmethod
    def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
        return strided(type(x) if subok else LazyArr, x, shape, strides,
                       x.dtype, checked=False)

    @staticmethod
    def sliding_window_view(x, window_shape, axis=None, **k):
        if not getattr(x, '_sym_array', False):
            return np.lib.stride_tricks.sliding_window_view(
                x, window_shape, axis, **k)
        if axis is None:
            if x.ndim != 1:
                raise Unsupported('sliding_window_view of several axes')
            axis = 0
        w = window_shape[0] if isinstance(window_shape, (tuple, list)) \
            else window_shape
        if axis != 0:
            raise Unsupported('sliding_window_view axis')
        if bool(w > x.shape[0]):
            raise ValueError('window shape cannot be larger than input array '
                             'shape')
        shape = (simp(x.shape[0] - w + 1),) + x.shape[1:] + (w,)
        snap = x._snapshot()
        fn = lambda idx: snap((simp(idx[0] + idx[-1]),) + tuple(idx[1:-1]))
        out = LazyArr._make(LazyArr, shape, Store(shape, fn), x.dtype,
                            contiguous=False)
        out._fn = fn
        return out
