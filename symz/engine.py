"""
A path-forking symbolic executor for real Python code.

The code under test is executed by the Python interpreter itself; its inputs are
proxy objects (SymInt, SymFloat, SymBool, SymTD ...) that build z3 terms.  When
the code needs the truth value (or the concrete integer value) of a term, the
explorer asks z3 which outcomes are feasible under the path condition, takes one
and queues the others; the program is re-executed from the start for each queued
decision prefix, so that on termination every feasible path within the stated
bounds has been walked.  Assertions are discharged by z3 on each path: the check
is `path condition /\\ not assertion`, for all values of the symbolic inputs.
"""
import time
import math
import sys
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages') \
    if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path \
    else None
import z3  # noqa: E402
import numpy as _np  # noqa: E402

z3.set_param('smt.random_seed', 1)


class PathEnd(BaseException):
    """This path is over (infeasible, or cut by an assumption)"""


class Unsupported(BaseException):
    """The code under test did something the encoding does not cover"""


class CounterExample(BaseException):
    def __init__(self, label, inputs, info=None):
        self.label = label
        self.inputs = inputs
        self.info = info


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.discharged = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.unsupported = []
        self.witness = {}
        self.cut = 0


class Explorer(object):
    def __init__(self, max_paths=20000, max_decisions=400, timeout_ms=20000,
                 deadline=None):
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.stats = Stats()
        self.inputs = {}
        self.worklist = [()]
        self.exhausted = False
        self.active = False
        self.sym_hash = False
        self.hashed = []

    # -- one path ---------------------------------------------------------
    def start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.inputs = {}
        self.input_meta = {}
        self.observed = []
        self.counter = 0
        self.memo = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.active = True
        self.fork_sign = False
        self.approx = False

    def _check(self, *extra):
        self.stats.queries += 1
        t = time.time()
        if self.input_meta and all(
                k == 'bv' for k in self.input_meta.values()):
            r = self._retry(extra, ('qfbv', 'default'))
        else:
            r = self.solver.check(*extra)
            self._last = self.solver
            if r == z3.unknown:
                r = self._retry(extra)
        self.stats.solver_time += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _retry(self, extra, tactics=('default', 'qfnra-nlsat', 'qfnia')):
        """the default incremental core gave up: a fresh, one-shot solver"""
        for tactic in tactics:
            try:
                s = z3.Solver() if tactic == 'default' \
                    else z3.Tactic(tactic).solver()
                s.set('timeout', self.timeout_ms)
                for a in self.solver.assertions():
                    s.add(a)
                for a in extra:
                    s.add(a)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                self._last = s
                return r
        return z3.unknown

    def add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)

    def assume(self, cond):
        """restrict this path to cond; the path ends when that is infeasible"""
        cond = to_z3_bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.stats.cut += 1
            raise PathEnd()
        self.add(c)
        if self._check() == z3.unsat:
            self.stats.cut += 1
            raise PathEnd()

    def fact(self, cond):
        """add a constraint that is satisfiable by construction"""
        self.add(cond)

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i >= self.max_decisions:
            raise Unsupported('decision budget (%d) exceeded: unbounded loop?'
                              % self.max_decisions)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exceeded')
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(c if d else z3.Not(c))
            return d
        self.stats.branches += 1
        t = self._check(c)
        if t == z3.unsat:
            self.trace.append(False)
            self.add(z3.Not(c))
            return False
        f = self._check(z3.Not(c))
        if f == z3.unsat:
            self.trace.append(True)
            self.add(c)
            return True
        self.worklist.append(tuple(self.trace) + (False,))
        self.trace.append(True)
        self.add(c)
        return True

    def concretize(self, expr):
        """fork over every feasible value of an integer term"""
        e = z3.simplify(expr)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_bv_value(e):
            return e.as_long()
        i = len(self.trace)
        if i >= self.max_decisions:
            raise Unsupported('decision budget (%d) exceeded: unbounded '
                              'concretisation of %s' % (self.max_decisions, str(e)[:80]))
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exceeded')
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                _, v, d = self.prefix[i]
                self.trace.append(self.prefix[i])
                self.add(e == v if d else e != v)
                if d:
                    return v
                continue
            self.stats.branches += 1
            if len(self.trace) >= self.max_decisions:
                raise Unsupported('decision budget exceeded: concretisation')
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                raise Unsupported('solver gave up while concretising')
            v = self._model().eval(e, model_completion=True).as_long()
            other = self._check(e != v)
            if other != z3.unsat:
                self.worklist.append(tuple(self.trace) + (('v', v, False),))
            self.trace.append(('v', v, True))
            self.add(e == v)
            return v

    def _model(self):
        """the model of the last satisfiable query"""
        return self._last.model()

    # -- inputs -----------------------------------------------------------
    def fresh_name(self, hint):
        self.counter += 1
        return '%s!%d' % (hint, self.counter)

    def input(self, name, expr, kind):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.inputs[name] = expr
        self.input_meta[name] = kind

    def model_inputs(self, model):
        out = {}
        for name, expr in self.inputs.items():
            out[name] = value_of(model, expr)
        return out

    # -- assertions -------------------------------------------------------
    def check(self, cond, label):
        st = self.stats
        c = z3.simplify(to_z3_bool(cond))
        if label not in st.witness:
            # reachability twin: assert(false) here must be violated
            r = self._check()
            st.witness[label] = (r == z3.sat)
        if z3.is_true(c):
            st.discharged += 1
            return
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.unknown:
            st.unsupported.append('solver unknown on check %r' % label)
            m = None
            if self._check() == z3.sat:
                m = self.model_inputs(self._model())
            raise UndecidedCheck(label, m)
        model = self._model()
        raise CounterExample(label, self.model_inputs(model),
                             self.more_models(c))

    def more_models(self, c, k=6):
        """a few further, differing models of the same violation: used when
        the first does not reproduce because of the rounding abstraction"""
        def gen():
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            for p in self.pc:
                s.add(p)
            s.add(z3.Not(c))
            for _ in range(k):
                if s.check() != z3.sat:
                    return
                m = s.model()
                yield self.model_inputs(m)
                diff = []
                for e in self.inputs.values():
                    v = m.eval(e, model_completion=True)
                    diff.append(e != v)
                if not diff:
                    return
                s.add(z3.Or(*diff))
        return gen

    def assuming(self, cond):
        return _Assuming(self, cond)

    def possible(self, cond):
        """can cond hold here? (an undecided query counts as yes)"""
        c = z3.simplify(to_z3_bool(cond))
        if z3.is_false(c):
            return False
        return self._check(c) != z3.unsat

    def path_model(self):
        r = self._check()
        if r != z3.sat:
            return None
        return self._model()


class _Assuming(object):
    """queries under a further, temporary condition"""

    def __init__(self, ex, cond):
        self.ex, self.cond = ex, to_z3_bool(cond)

    def __enter__(self):
        self.ex.solver.push()
        self.ex.solver.add(self.cond)

    def __exit__(self, *a):
        self.ex.solver.pop()


class UndecidedCheck(BaseException):
    def __init__(self, label, inputs):
        self.label = label
        self.inputs = inputs


E = None


def set_explorer(e):
    global E
    E = e


def value_of(model, expr):
    v = model.eval(expr, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported('model value %s' % v)


# ---------------------------------------------------------------------------
# scalar proxies
# ---------------------------------------------------------------------------

class Sym(object):
    __slots__ = ('e',)
    __array_priority__ = 1e6

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, str(self.e)[:60])

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


def is_sym(x):
    return isinstance(x, Sym)


def to_z3_bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (SymInt, SymFloat)):
        return x.e != 0
    if isinstance(x, SymBV):
        return x.e != 0
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, to_z3_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, to_z3_bool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, to_z3_bool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if o is None:
            return False
        return SymBool(self.e == to_z3_bool(o))

    def __ne__(self, o):
        if o is None:
            return True
        return SymBool(self.e != to_z3_bool(o))

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __lt__(self, o):
        return self.as_int() < o

    def __gt__(self, o):
        return self.as_int() > o

    def logical_not(self):
        return ~self


def _is_int(x):
    return isinstance(x, (int, _np.integer)) and not isinstance(x, SymBool)


def _is_float(x):
    return isinstance(x, (float, _np.floating, Fraction)) \
        and not isinstance(x, Sym)


def frac(x):
    if isinstance(x, Fraction):
        return x
    return Fraction(float(x))


def real_val(x):
    f = frac(x)
    return z3.Q(f.numerator, f.denominator)


def int_e(x):
    """z3 Int term of an int-like"""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x.as_int().e
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(int(x))
    if _is_int(x):
        return z3.IntVal(int(x))
    if isinstance(x, SymBV):
        return x.to_int().e
    raise TypeError('not an int: %r' % (x,))


def real_e(x):
    if isinstance(x, SymFloat):
        return x.e
    if isinstance(x, (SymInt, SymBool)):
        e = int_e(x)
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    if isinstance(x, (bool, _np.bool_)):
        return z3.RealVal(int(x))
    if _is_int(x):
        return z3.RealVal(int(x))
    if _is_float(x):
        return real_val(x)
    raise TypeError('not a number: %r' % (x,))


def is_number(x):
    return isinstance(x, (SymInt, SymFloat, SymBool, bool, _np.bool_)) \
        or _is_int(x) or _is_float(x)


def _inf(x):
    return _is_float(x) and not isinstance(x, Fraction) and \
        (math.isinf(x) or math.isnan(x))


def floordiv_e(a, b):
    """python floor division on z3 Int terms"""
    bs = z3.simplify(b)
    if z3.is_int_value(bs):
        v = bs.as_long()
        if v == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return a / bs if v > 0 else (-a) / z3.IntVal(-v)
    if E.branch(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if E.branch(b > 0):
        return a / b
    return (-a) / (-b)


def _defer(o):
    return isinstance(o, _np.ndarray) or getattr(o, '_sym_array', False) \
        or getattr(o, '_sym_td', False)


class SymNum(Sym):
    __slots__ = ('_np_dtype',)

    def item(self):
        return self

    @property
    def real(self):
        return self

    def tobytes(self):
        from . import wire
        d = getattr(self, '_np_dtype', None)
        if d is None:
            d = 'float64' if isinstance(self, SymFloat) else 'int64'
        return wire.ScalarBytes(self, d)
    tostring = tobytes

    def conjugate(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def squeeze(self):
        return self

    def ravel(self):
        return _np.array([self], dtype=object)


class SymInt(SymNum):
    __slots__ = ()

    def __init__(self, e):
        self.e = e if isinstance(e, z3.ExprRef) else z3.IntVal(e)

    # arithmetic
    def _bin(self, o, f, g=None):
        if _defer(o):
            return NotImplemented
        if isinstance(o, SymBV):
            return NotImplemented
        if isinstance(o, (SymInt, SymBool, bool, _np.bool_)) or _is_int(o):
            return SymInt(f(self.e, int_e(o)))
        if isinstance(o, SymFloat) or _is_float(o):
            if _inf(o):
                raise Unsupported('arithmetic with inf/nan')
            return SymFloat(f(real_e(self), real_e(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: b * a)

    def __floordiv__(self, o):
        if _defer(o):
            return NotImplemented
        if isinstance(o, SymFloat) or _is_float(o):
            return (SymFloat(real_e(self)) / o).floor()
        if not is_number(o):
            return NotImplemented
        return SymInt(floordiv_e(self.e, int_e(o)))

    def __rfloordiv__(self, o):
        if _defer(o) or not is_number(o):
            return NotImplemented
        if _is_float(o):
            return (SymFloat(real_e(o)) / self).floor()
        return SymInt(floordiv_e(int_e(o), self.e))

    def __mod__(self, o):
        if _defer(o) or not is_number(o):
            return NotImplemented
        if isinstance(o, SymFloat) or _is_float(o):
            return SymFloat(real_e(self)) % o
        b = int_e(o)
        return SymInt(self.e - floordiv_e(self.e, b) * b)

    def __rmod__(self, o):
        if isinstance(o, str) or _defer(o) or not is_number(o):
            return NotImplemented
        if _is_float(o):
            return SymFloat(real_e(o)) % self
        a = int_e(o)
        return SymInt(a - floordiv_e(a, self.e) * self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if _defer(o):
            return NotImplemented
        return SymFloat(real_e(self)).__truediv__(o)

    def __rtruediv__(self, o):
        if _defer(o):
            return NotImplemented
        return SymFloat(real_e(self)).__rtruediv__(o)

    def __pow__(self, o):
        if _is_int(o) and 0 <= int(o) <= 8:
            r = SymInt(1)
            for _ in range(int(o)):
                r = r * self
            return r
        return NotImplemented

    def __rpow__(self, o):
        n = self.__index__()
        return o ** n

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rlshift__(self, o):
        return o * (2 ** self.__index__())

    def __rshift__(self, o):
        return self // (2 ** int(o))

    # comparison
    def _cmp(self, o, f):
        if _defer(o):
            return NotImplemented
        if isinstance(o, (SymInt, SymBool, bool, _np.bool_)) or _is_int(o):
            return SymBool(f(self.e, int_e(o)))
        if _inf(o):
            return f(0.0, float(o))
        if isinstance(o, SymFloat) or _is_float(o):
            return SymBool(f(real_e(self), real_e(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        if E.sym_hash:
            E.hashed.append(z3.ToReal(self.e))
            return 11
        return hash(self.__index__())

    def __bool__(self):
        return E.branch(self.e != 0)

    def __index__(self):
        return E.concretize(self.e)

    def __int__(self):
        return E.concretize(self.e)

    def __float__(self):
        return float(E.concretize(self.e))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def floor(self):
        return self
    ceil = rint = floor

    def round(self, decimals=0, out=None):
        return self

    def bit_length(self):
        if E.branch(self.e == 0):
            return 0
        k = z3.Int(E.fresh_name('bitlen'))
        E.fact(k >= 1)
        return SymInt(k)

    def astype(self, dtype, **kw):
        return convert_dtype(self, dtype)

    def sqrt(self):
        return SymFloat(real_e(self)).sqrt()

    def log(self):
        return SymFloat(real_e(self)).log()

    def exp(self):
        return SymFloat(real_e(self)).exp()

    def sign(self):
        return SymInt(z3.If(self.e > 0, z3.IntVal(1),
                            z3.If(self.e < 0, z3.IntVal(-1), z3.IntVal(0))))

    def __format__(self, spec):
        return '<symint>' if spec else str(self)

    def __str__(self):
        from . import wire
        return wire.token(self)


class SymNpInt(SymInt):
    """a symbolic value of one of numpy's integer types: not a python int, and
    without the methods only python ints have"""
    bit_length = property(lambda self: (_ for _ in ()).throw(
        AttributeError("'numpy.int64' object has no attribute 'bit_length'")))


class SymFloat(SymNum):
    """
    A floating point value, idealised as a real number.  Where an operation's
    rounding can matter (quotients of durations) the result is a fresh variable
    constrained to the correctly rounded result's error band.

    `ie`    an Int term, when the value is known to be integral
    `quot`  Int terms (a, b) and a flag when the value is the quotient a / b;
            the flag says that rounding cannot cross an integer; otherwise only
            a relative error of 2^-51 is assumed
    """
    __slots__ = ('ie', 'quot')

    def __init__(self, e, ie=None, quot=None):
        self.e = e if isinstance(e, z3.ExprRef) else real_val(e)
        self.ie = ie
        self.quot = quot

    @staticmethod
    def integral(ie):
        return SymFloat(z3.ToReal(ie), ie)

    def _bin(self, o, f):
        if _defer(o):
            return NotImplemented
        if not is_number(o):
            return NotImplemented
        if _inf(o):
            raise Unsupported('arithmetic with inf/nan')
        io = integral_e(o)
        if self.ie is not None and io is not None:
            return SymFloat.integral(f(self.ie, io))
        return SymFloat(f(self.e, real_e(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if _defer(o):
            return NotImplemented
        if not is_number(o):
            return NotImplemented
        if _inf(o):
            raise Unsupported('division by inf/nan')
        b = z3.simplify(real_e(o))
        if z3.is_rational_value(b):
            if b.numerator_as_long() == 0:
                return Weird.div(self)
            return SymFloat(self.e / b)
        if E.branch(b == 0):
            return Weird.div(self)
        return SymFloat(self.e / b)

    def __rtruediv__(self, o):
        if _defer(o) or not is_number(o):
            return NotImplemented
        return SymFloat(real_e(o)).__truediv__(self)

    def __floordiv__(self, o):
        if _defer(o):
            return NotImplemented
        return (self / o).floor()

    def __rfloordiv__(self, o):
        if _defer(o):
            return NotImplemented
        return (o / self).floor()

    def __mod__(self, o):
        if _defer(o):
            return NotImplemented
        return self - (self / o).floor() * o

    def __rmod__(self, o):
        if isinstance(o, str) or _defer(o):
            return NotImplemented
        return o - (o / self).floor() * self

    def __pow__(self, o):
        if _is_int(o) or (_is_float(o) and float(o).is_integer()):
            n = int(o)
            if 0 <= n <= 8:
                r = SymFloat(1.0)
                for _ in range(n):
                    r = r * self
                return r
            if n < 0:
                return 1.0 / (self ** -n)
        if _is_float(o) and float(o) == 0.5:
            return self.sqrt()
        return UF('pow', self, o)

    def __rpow__(self, o):
        return UF('pow', o, self)

    def __neg__(self):
        return SymFloat(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if E.fork_sign:
            return self if E.branch(self.e >= 0) else -self
        return SymFloat(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if _defer(o):
            return NotImplemented
        if isinstance(o, Weird):
            return NotImplemented
        if _inf(o):
            return f(0.0, float(o))
        if not is_number(o):
            return NotImplemented
        io = integral_e(o)
        if io is not None and self.ie is not None:
            return SymBool(f(self.ie, io))
        if io is not None and self.quot is not None and self.quot[2]:
            a, b, _ = self.quot
            return SymBool(f(a, io * b))
        return SymBool(f(self.e, real_e(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        # sound only where keys that are compared are all symbolic, which a
        # harness asserts by setting sym_hash
        if E.sym_hash:
            E.hashed.append(self.e)
            return 11
        raise Unsupported('hash of a symbolic float')

    def __bool__(self):
        return E.branch(self.e != 0)

    def _trunc_e(self):
        if self.ie is not None:
            return self.ie
        if self.quot is not None:
            a, b, exact = self.quot
            return z3.If(a >= 0, self._floor_e(), self._ceil_e())
        return z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))

    def __int__(self):
        return E.concretize(self._trunc_e())

    def __float__(self):
        v = z3.simplify(self.e)
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(),
                                  v.denominator_as_long()))
        raise Unsupported('a symbolic real was forced to a machine float')

    def __trunc__(self):
        return SymInt(self._trunc_e())

    def trunc(self):
        return SymFloat.integral(self._trunc_e())

    def _floor_e(self):
        if self.ie is not None:
            return self.ie
        if self.quot is not None:
            a, b, exact = self.quot
            return a / b if exact else self._loose(a, b)
        return z3.ToInt(self.e)

    def _ceil_e(self):
        if self.ie is not None:
            return self.ie
        if self.quot is not None:
            a, b, exact = self.quot
            return -((-a) / b) if exact else -self._loose(-a, b)
        return -z3.ToInt(-self.e)

    def floor(self):
        return SymFloat.integral(self._floor_e())

    def ceil(self):
        return SymFloat.integral(self._ceil_e())

    def __floor__(self):
        return SymInt(self._floor_e())

    def __ceil__(self):
        return SymInt(self._ceil_e())

    def _rint_e(self):
        """round half to even"""
        if self.ie is not None:
            return self.ie
        if self.quot is not None:
            return self._near(1)
        x = self.e + z3.Q(1, 2)
        f = z3.ToInt(x)
        return z3.If(z3.And(z3.ToReal(f) == x, f % 2 == 1), f - 1, f)

    @staticmethod
    def _loose(a, b):
        return memo('loose', (a, b), lambda: SymFloat._loose_fresh(a, b))

    @staticmethod
    def _loose_fresh(a, b):
        """floor of a / b up to a relative error of 2^-51"""
        E.approx = True
        k = z3.Int(E.fresh_name('floor'))
        absa = z3.If(a >= 0, a, -a)
        E.fact(z3.And(2 ** 51 * (b * k - a) <= absa,
                      2 ** 51 * (a - b * (k + 1)) < absa))
        return k

    def _near(self, scale):
        a, b, exact = self.quot
        return memo('near%d' % scale, (a, b), lambda: self._near_fresh(scale))

    def _near_fresh(self, scale):
        """an integer nearest to scale * quotient; ties, and values within
        2^-10 of a tie, may go either way (rounding of the quotient)"""
        a, b, exact = self.quot
        m = z3.Int(E.fresh_name('rint'))
        d = 2 * b * m - 2 * scale * a
        if exact:
            E.fact(z3.And(1024 * d <= 1025 * b, 1024 * d >= -1025 * b))
        else:
            absa = z3.If(a >= 0, a, -a)
            lim = 1025 * 2 ** 40 * b + 2 * scale * absa
            E.fact(z3.And(2 ** 50 * d <= lim, 2 ** 50 * d >= -lim))
        E.approx = True
        return m

    def rint(self):
        return SymFloat.integral(self._rint_e())

    def round(self, decimals=0, out=None):
        decimals = int(decimals)
        if decimals == 0:
            return self.rint()
        if self.ie is not None and decimals >= 0:
            return self
        if self.quot is not None and 0 < decimals <= 4:
            m = self._near(10 ** decimals)
            p = z3.IntVal(10 ** decimals)
            return SymFloat(z3.ToReal(m) / z3.ToReal(p), None, (m, p, True))
        m = Fraction(10) ** decimals
        r = SymFloat(self.e * z3.Q(m.numerator, m.denominator)).rint()
        return SymFloat(r.e / z3.Q(m.numerator, m.denominator))

    def __round__(self, n=None):
        if n is None:
            return SymInt(self._rint_e())
        return self.round(n)

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))

    def sqrt(self):
        if E.branch(self.e < 0):
            raise Unsupported('sqrt of a negative number')
        r = z3.Real(E.fresh_name('sqrt'))
        E.fact(z3.And(r >= 0, r * r == self.e))
        return SymFloat(r)

    def log(self):
        return UF('log', self)

    def log2(self):
        return UF('log2', self)

    def log10(self):
        return UF('log10', self)

    def log1p(self):
        return UF('log', 1 + self)

    def exp(self):
        return UF('exp', self)

    def expm1(self):
        return UF('exp', self) - 1

    def sin(self):
        return UF('sin', self)

    def cos(self):
        return UF('cos', self)

    def tanh(self):
        return UF('tanh', self)

    def sign(self):
        if E.fork_sign:
            return SymFloat(1.0 if E.branch(self.e > 0) else
                            -1.0 if E.branch(self.e < 0) else 0.0)
        return SymFloat(z3.If(self.e > 0, z3.RealVal(1),
                              z3.If(self.e < 0, z3.RealVal(-1),
                                    z3.RealVal(0))))

    def astype(self, dtype, **kw):
        return convert_dtype(self, dtype)

    def __format__(self, spec):
        return '<symfloat>' if spec else str(self)

    def __str__(self):
        from . import wire
        return wire.token(self)


class Weird(object):
    """the result of a division by zero: inf or nan.  Any use of it other than
    being discarded ends in Unsupported unless the harness asks is_weird"""
    __array_priority__ = 1e6

    def __init__(self, kind):
        self.kind = kind

    @classmethod
    def div(cls, num):
        if E.branch(real_e(num) == 0):
            return cls('nan')
        return cls('inf')

    def __repr__(self):
        return 'Weird(%s)' % self.kind

    def _same(self, *a):
        return Weird('nan' if self.kind == 'nan' else 'weird')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _same
    __truediv__ = __rtruediv__ = __neg__ = __abs__ = __pow__ = _same
    floor = ceil = rint = sqrt = log = exp = sign = conjugate = _same

    def astype(self, *a, **k):
        return self

    def __eq__(self, o):
        if isinstance(o, Weird):
            return False
        return False

    def __ne__(self, o):
        return True

    def __hash__(self):
        return 7

    def _cmp(self, o):
        if self.kind == 'nan':
            return False
        raise Unsupported('comparison with inf')
    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    def __bool__(self):
        return True

    def __float__(self):
        return float('nan')

    def __int__(self):
        raise ValueError('cannot convert float NaN to integer')


def memo(kind, es, make):
    """rounding is a function: equal arguments give equal results"""
    es = [z3.simplify(e) for e in es]
    key = (kind,) + tuple(e.get_id() for e in es)
    if key not in E.memo:
        E.memo[key] = (es, make())
    return E.memo[key][1]


def UF(name, *args):
    """
    A transcendental function: an uninterpreted function over the reals,
    constrained by the axioms the harness registered for it.
    """
    es = [real_e(a) for a in args]
    if name == 'exp':
        return SymFloat(_exp(es[0]))
    if name == 'log':
        return _log(es[0])
    if name in ('log2', 'log10'):
        r = _log(es[0])
        return r if isinstance(r, Weird) else \
            r / math.log(2 if name == 'log2' else 10)
    if name == 'pow':
        b, x = z3.simplify(es[0]), z3.simplify(es[1])
        if z3.is_rational_value(b):
            v = b.as_fraction()
            if v == 1:
                return SymFloat(1.0)
            if v > 0:
                k = 1 if v == Fraction(math.e) else Fraction(math.log(v))
                return SymFloat(_exp(es[1] * real_val(k)))
        elif z3.is_rational_value(x) and E.branch(es[0] > 0):
            return SymFloat(_exp(_log(es[0]).e * x))
        raise Unsupported('general power')
    if name in ('sin', 'cos', 'tanh'):
        key = z3.simplify(es[0])
        f = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
        r = f(es[0])
        E.approx = True
        E.fact(z3.And(r >= -1, r <= 1))
        if name == 'tanh':
            E.fact(z3.And((r > 0) == (es[0] > 0), (r < 0) == (es[0] < 0)))
        return SymFloat(r)
    raise Unsupported('transcendental function %s' % name)


def _exp_points():
    if ('exp_points',) not in E.memo:
        E.memo[('exp_points',)] = [(z3.RealVal(0), z3.RealVal(1))]
        E.memo[('exp_given',)] = [(z3.RealVal(0), z3.RealVal(1))]
    return E.memo[('exp_points',)]


def _exp_chord(x, r, p, q):
    """exp is below its chord between p and q, and above it elsewhere"""
    (a, s), (b, t) = (p, q) if p[0].as_fraction() < q[0].as_fraction() \
        else (q, p)
    c = s + z3.simplify((t - s) / (b - a)) * (x - a)
    E.fact(z3.Implies(z3.And(x >= a, x <= b), r <= c))
    E.fact(z3.Implies(z3.Or(x <= a, x >= b), r >= c))


def _exp_fact(x, r):
    """what is known of exp(x) = r, for every x: it is positive, above its
    tangent at 0, strictly increasing, and convex"""
    pts = _exp_points()
    E.fact(z3.And(r > 0, r >= 1 + x))
    for y, s in pts:
        E.fact((x < y) == (r < s))
        E.fact((x > y) == (r > s))
    given = E.memo[('exp_given',)]
    for i, p in enumerate(given):
        for q in given[:i]:
            _exp_chord(x, r, p, q)
    pts.append((x, r))


def _exp_given(x, r):
    """a value of exp which is known (as far as double precision goes)"""
    pts = _exp_points()
    given = E.memo[('exp_given',)]
    x, r = real_val(x), real_val(r)
    close = lambda a, b: abs(a.as_fraction() - b.as_fraction()) <= \
        abs(a.as_fraction()) * Fraction(1, 10 ** 6)
    if len(given) > 8 or any(close(x, a) or close(r, b) for a, b in given):
        return
    for y, s in pts:
        E.fact((x < y) == (r < s))
        E.fact((x > y) == (r > s))
        if not z3.is_rational_value(y):
            for p in given:
                _exp_chord(y, s, p, (x, r))
    given.append((x, r))
    pts.append((x, r))


def known_exp(name, a, r):
    """a value of log or exp that the code computed from numbers"""
    x, y = {'log': (r, a), 'log1p': (r, 1 + a), 'exp': (a, r),
            'expm1': (a, 1 + r)}[name]
    if E is not None and E.active and math.isfinite(x) and abs(x) < 50 \
            and y > 0:
        _exp_given(Fraction(x), Fraction(y))


def _exp(x):
    x = z3.simplify(x)
    if z3.is_rational_value(x):
        v = Fraction(math.exp(x.as_fraction()))
        if v > 0 and abs(x.as_fraction()) < 50:
            _exp_given(x.as_fraction(), v)
        return real_val(v)
    E.approx = True
    key = ('exp', x.get_id())
    if key not in E.memo:
        r = z3.Function('uf_exp', z3.RealSort(), z3.RealSort())(x)
        E.memo[key] = (x, r)
        _exp_fact(x, r)
    return E.memo[key][1]


def _log(x):
    x = z3.simplify(x)
    if z3.is_rational_value(x):
        v = x.as_fraction()
        if v > 0:
            r = Fraction(math.log(v))
            _exp_given(r, v)
            return SymFloat(r)
        return Weird('nan' if v < 0 else '-inf')
    if not E.branch(x > 0):
        return Weird('-inf') if E.branch(x == 0) else Weird('nan')
    E.approx = True
    key = ('log', x.get_id())
    if key not in E.memo:
        y = z3.Real(E.fresh_name('log'))
        f = z3.Function('uf_exp', z3.RealSort(), z3.RealSort())
        E.fact(f(y) == x)
        E.memo[('exp', y.get_id())] = (y, x)
        _exp_fact(y, x)
        E.memo[key] = (x, y)
    return SymFloat(E.memo[key][1])


_EPS = Fraction(1, 2 ** 53)


def rounded_quotient(a, b):
    """
    float64 quotient of two integers, as numpy computes it for two timedelta64
    values: both are converted to double, then divided.  For |a|, |b| <= 2^53
    the conversions are exact and the division is correctly rounded: the result
    is monotone, so it never crosses an integer.  Beyond 2^53 only the relative
    error bound holds.
    """
    q = z3.ToReal(a) / z3.ToReal(b)
    av, bv = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(av) and z3.is_int_value(bv):
        return SymFloat(Fraction(_np.float64(av.as_long())
                                 / _np.float64(bv.as_long())))
    if z3.is_int_value(bv):
        q = z3.simplify(q)
    if not E.branch(b > 0):
        return rounded_quotient(-a, -b)
    lim = 2 ** 52
    exact = E._check(z3.Not(z3.And(a < lim, a > -lim, b < lim))) == z3.unsat
    # |a|, b < 2^52: |a/b - k| >= 1/b for every integer k != a/b, while the
    # rounding error is below |a|/b * 2^-53 < 1/(2b): floor and ceil are exact
    if not exact:
        E.approx = True
    return SymFloat(q, None, (a, b, exact))


def convert_dtype(x, dtype):
    """scalar astype"""
    if isinstance(x, SymBV):
        d = _np.dtype(dtype)
        if d.kind in 'iu':
            return x.resize(d.itemsize * 8, d.kind == 'i')
        return convert_dtype(x.to_int(), dtype)
    d = _np.dtype(dtype)
    if d.kind == 'O':
        return x
    if isinstance(x, SymBool):
        x = x.as_int()
        if d.kind == 'b':
            return x != 0
    if isinstance(x, Weird):
        return x
    if not isinstance(x, (SymInt, SymFloat)):
        if isinstance(x, Fraction):
            x = float(x)
        return _np.asarray(x).astype(d)[()]
    if d.kind == 'f':
        return SymFloat(real_e(x))
    if d.kind == 'c':
        return x
    if d.kind == 'b':
        return x != 0
    if d.kind in 'iu':
        e = x.e if isinstance(x, SymInt) else x._trunc_e()
        bits = d.itemsize * 8
        if bits == 64 and d.kind == 'i':
            return SymInt(e)
        m = e % (2 ** bits)
        if d.kind == 'i':
            m = z3.If(m >= 2 ** (bits - 1), m - 2 ** bits, m)
        return SymInt(m)
    raise Unsupported('astype %s' % d)


class SymBV(Sym):
    """a fixed width machine integer"""
    __slots__ = ('bits', 'signed')

    def __init__(self, e, signed=False):
        self.e = e
        self.bits = e.size()
        self.signed = signed

    def _co(self, o):
        if isinstance(o, SymBV):
            if o.bits == self.bits:
                return o.e
            if o.bits < self.bits:
                ext = z3.SignExt if o.signed else z3.ZeroExt
                return ext(self.bits - o.bits, o.e)
            raise Unsupported('mixed width arithmetic')
        if _is_int(o) or isinstance(o, bool):
            return z3.BitVecVal(int(o), self.bits)
        return None

    def _bin(self, o, f):
        if _defer(o):
            return NotImplemented
        if isinstance(o, SymBV) and o.bits > self.bits:
            return f(self.resize(o.bits, o.signed).e, o.e, o)
        c = self._co(o)
        if c is None:
            return NotImplemented
        return f(self.e, c, self)

    @staticmethod
    def _mk(e, like):
        return SymBV(e, like.signed)

    def __add__(self, o):
        return self._bin(o, lambda a, b, l: SymBV(a + b, l.signed))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b, l: SymBV(a - b, l.signed))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b, l: SymBV(b - a, l.signed))

    def __mul__(self, o):
        return self._bin(o, lambda a, b, l: SymBV(a * b, l.signed))
    __rmul__ = __mul__

    def __and__(self, o):
        return self._bin(o, lambda a, b, l: SymBV(a & b, l.signed))
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b, l: SymBV(a | b, l.signed))
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b, l: SymBV(a ^ b, l.signed))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBV(~self.e, self.signed)

    def __neg__(self):
        return SymBV(-self.e, self.signed)

    def __lshift__(self, o):
        return self._bin(o, lambda a, b, l: SymBV(a << b, l.signed))

    def __rshift__(self, o):
        return self._bin(o, lambda a, b, l: SymBV(
            (a >> b) if l.signed else z3.LShR(a, b), l.signed))

    def __floordiv__(self, o):
        if self.signed:
            raise Unsupported('signed bit-vector division')
        return self._bin(o, lambda a, b, l: SymBV(z3.UDiv(a, b), l.signed))

    def __mod__(self, o):
        if self.signed:
            raise Unsupported('signed bit-vector remainder')
        return self._bin(o, lambda a, b, l: SymBV(z3.URem(a, b), l.signed))

    def _cmp(self, o, u, s):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return SymBool(s(self.e, c) if self.signed else u(self.e, c))

    def __lt__(self, o):
        return self._cmp(o, z3.ULT, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, z3.ULE, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, z3.UGT, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, z3.UGE, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return E.branch(self.e != 0)

    def __index__(self):
        v = E.concretize(self.e)
        if self.signed and v >= 2 ** (self.bits - 1):
            v -= 2 ** self.bits
        return v
    __int__ = __index__

    def resize(self, bits, signed):
        if bits == self.bits:
            return SymBV(self.e, signed)
        if bits < self.bits:
            return SymBV(z3.Extract(bits - 1, 0, self.e), signed)
        ext = z3.SignExt if self.signed else z3.ZeroExt
        return SymBV(ext(bits - self.bits, self.e), signed)

    def to_int(self):
        return SymInt(z3.BV2Int(self.e, self.signed))

    def astype(self, dtype, **kw):
        return convert_dtype(self, dtype)


# ---------------------------------------------------------------------------
# helpers shared by harnesses
# ---------------------------------------------------------------------------

def ite(c, a, b):
    """if-then-else without forking"""
    if not isinstance(c, SymBool):
        return a if c else b
    ce = z3.simplify(c.e)
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    if getattr(a, '_sym_td', False) or getattr(b, '_sym_td', False):
        return a._ite(c, b) if getattr(a, '_sym_td', False) \
            else b._ite(~c, a)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return SymBool(z3.If(ce, to_z3_bool(a), to_z3_bool(b)))
    if isinstance(a, SymFloat) or isinstance(b, SymFloat) \
            or _is_float(a) or _is_float(b):
        ia, ib = integral_e(a), integral_e(b)
        if ia is not None and ib is not None:
            return SymFloat.integral(z3.If(ce, ia, ib))
        return SymFloat(z3.If(ce, real_e(a), real_e(b)))
    if isinstance(a, SymBV) or isinstance(b, SymBV):
        like = a if isinstance(a, SymBV) else b
        return SymBV(z3.If(ce, like._co(a), like._co(b)), like.signed)
    return SymInt(z3.If(ce, int_e(a), int_e(b)))


def integral_e(x):
    if isinstance(x, SymFloat):
        return x.ie
    if isinstance(x, (SymInt, SymBool)) or _is_int(x):
        return int_e(x)
    if _is_float(x) and float(x).is_integer():
        return z3.IntVal(int(x))
    return None


def as_bool(x):
    if isinstance(x, SymBool):
        return x
    return SymBool(to_z3_bool(x))


def And(*xs):
    xs = [x for x in xs]
    if not any(is_sym(x) for x in xs):
        return all(bool(x) for x in xs)
    return SymBool(z3.And(*[to_z3_bool(x) for x in xs]))


def Or(*xs):
    if not any(is_sym(x) for x in xs):
        return any(bool(x) for x in xs)
    return SymBool(z3.Or(*[to_z3_bool(x) for x in xs]))


def Not(x):
    return ~x if isinstance(x, SymBool) else not x


def Implies(a, b):
    return Or(Not(as_bool(a) if is_sym(a) else a), b)
