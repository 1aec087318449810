"""
np.random as an adversary: in the symbolic world every number drawn is an
input of the harness; in the real world numpy's generators are replaced by ones
which hand out the numbers of the counterexample, in the same order.
"""
import contextlib
import operator
import numpy as np
import z3
from . import engine
from .engine import SymInt, SymFloat, Unsupported, is_sym


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(operator.index(s) for s in size)
    return (operator.index(size),)


def _each(r, low, high, size):
    """integers from low up to high, which may be arrays"""
    if np.ndim(low) == 0 and np.ndim(high) == 0:
        return r._fill(size, lambda: r._int(low, high), np.int64)
    s = _shape(size)
    if s is None:
        s = np.broadcast_shapes(np.shape(low), np.shape(high))
    cells = zip(*[iter(_cells(x, s)) for x in (low, high)])
    return r._fill(s, lambda: r._int(*next(cells)), np.int64)


def _cells(x, shape):
    from . import anp
    x = anp.raw(x) if isinstance(x, anp.SymArr) else np.asarray(x)
    return list(np.broadcast_to(x, shape).reshape(-1))


class Chance(object):
    """stands in for np.random"""

    def _next(self):
        ex = engine.E
        k = getattr(ex, '_drawn', None)
        if k is None or k[0] is not ex.pc:
            k = [ex.pc, 0]
        ex._drawn = k
        k[1] += 1
        return 'rand%d' % (k[1] - 1)

    def _int(self, lo, hi):
        """lo <= x < hi"""
        if bool(lo >= hi):
            raise ValueError('low >= high')
        n = self._next()
        v = z3.Int(n)
        engine.E.input(n, v, 'int')
        engine.E.add(z3.And(engine.int_e(lo) <= v, v < engine.int_e(hi)))
        log = getattr(engine.E, '_draws', None)
        if log is not None:
            log.append((lo, hi, SymInt(v)))
        return SymInt(v)

    def _real(self):
        n = self._next()
        v = z3.Real(n)
        engine.E.input(n, v, 'real')
        return SymFloat(v)

    def _fill(self, size, make, dtype):
        from . import anp
        s = _shape(size)
        if s is None:
            return make()
        o = np.empty(s, dtype=object)
        for i in np.ndindex(*s):
            o[i] = make()
        return anp.wrap(o, dtype)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return _each(self, low, high, size)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return _each(self, low, high + 1, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        def make():
            x = self._real()
            engine.E.add(z3.And(x.e >= 0, x.e < 1))
            return low + (high - low) * x
        return self._fill(size, make, np.float64)

    def random_sample(self, size=None):
        return self.uniform(0.0, 1.0, size)
    random = random_sample

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale))
        return self._fill(size, self._real, np.float64) * scale + loc

    def choice(self, a, size=None, replace=True, p=None):
        from . import anp
        if not replace or p is not None:
            raise Unsupported('np.random.choice options')
        if isinstance(a, (int, np.integer)) or is_sym(a):
            return self.randint(0, a, size)
        i = self.randint(0, len(a), size)
        return anp.as_sym(a)[i] if np.ndim(i) else a[operator.index(i)]

    def permutation(self, n):
        if not isinstance(n, (int, np.integer)):
            n = len(n)
        left = list(range(n))
        out = []
        while left:
            out.append(left.pop(operator.index(self._int(0, len(left)))))
        return np.array(out, dtype=np.int64)

    def shuffle(self, x):
        p = self.permutation(len(x))
        x[...] = np.array(x)[p] if isinstance(x, np.ndarray) else None

    def __getattr__(self, name):
        if name in ('seed', 'RandomState'):
            raise Unsupported('np.random.' + name)
        return getattr(np.random, name)


class Real(object):
    """the same draws, from given numbers"""

    def __init__(self, w, log=None):
        self.w, self.k, self.log = w, 0, log

    def _int(self, lo, hi):
        lo, hi = int(lo), int(hi)
        if lo >= hi:
            raise ValueError('low >= high')
        self.k += 1
        v = int(self.w._get('rand%d' % (self.k - 1),
                            lambda: self.w.rng.randrange(lo, hi)))
        # a draw the model does not mention can be anything
        v = v if lo <= v < hi else lo + v % (hi - lo)
        if self.log is not None:
            self.log.append((lo, hi, v))
        return v

    def _real(self, unit=False):
        self.k += 1
        v = float(self.w._get('rand%d' % (self.k - 1),
                              lambda: self.w.rng.random()))
        return v % 1.0 if unit else v

    def _fill(self, size, make, dtype):
        s = _shape(size)
        if s is None:
            return make()
        o = np.empty(s, dtype)
        for i in np.ndindex(*s):
            o[i] = make()
        return o

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return _each(self, low, high, size)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return _each(self, low, high + 1, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * self._real(True),
                          np.float64)

    def random_sample(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale))
        return self._fill(size, self._real, np.float64) * scale + loc

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)):
            return self.randint(0, a, size)
        return np.asarray(a)[self.randint(0, len(a), size)]

    def permutation(self, n):
        if not isinstance(n, (int, np.integer)):
            n = len(n)
        left = list(range(n))
        out = []
        while left:
            out.append(left.pop(self._int(0, len(left))))
        return np.array(out, dtype=np.int64)

    def shuffle(self, x):
        x[...] = np.array(x)[self.permutation(len(x))]


NAMES = ('randint', 'random_integers', 'uniform', 'random_sample', 'normal',
         'choice', 'permutation', 'shuffle')


@contextlib.contextmanager
def dealt(w, log=None):
    """numpy's generators replaced by those of a counterexample"""
    r = Real(w, log)
    old = {n: getattr(np.random, n) for n in NAMES}
    try:
        for n in NAMES:
            setattr(np.random, n, getattr(r, n))
        yield
    finally:
        for n in NAMES:
            setattr(np.random, n, old[n])
