"""
Harness API: one harness function is executed in two worlds.

  SymWorld       inputs are z3 terms, zounds is the shadow copy loaded from the
                 current source, `check` is discharged by z3
  ConcreteWorld  inputs come from a dict (a solver model), zounds is the real
                 package with real numpy; `check` is an ordinary assertion

A counterexample is only reported after its replay in ConcreteWorld fails too.
"""
import builtins
import contextlib
import ctypes
import hashlib
import importlib
import itertools
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import engine, lnp, shadow
from .engine import (Explorer, SymInt, SymFloat, SymBool, SymBV, is_sym, PathEnd,
                     Unsupported, CounterExample, UndecidedCheck)
from .td import TD

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = shadow.REPO
HERE = os.path.dirname(os.path.abspath(__file__))
CHECKS = os.path.join(os.path.dirname(HERE), 'checks')


class Violation(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, '%s %s' % (label, detail))
        self.label = label
        self.detail = detail


class Skip(Exception):
    """the concrete inputs do not satisfy the harness's assumptions"""


class BaseWorld(object):
    And = staticmethod(engine.And)
    Or = staticmethod(engine.Or)
    Not = staticmethod(engine.Not)
    Implies = staticmethod(engine.Implies)

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def iff(self, a, b):
        return self.And(self.Implies(a, b), self.Implies(b, a))

    def raises(self, exc, fn, *a, **k):
        """True when fn raises exc; other exceptions propagate"""
        try:
            fn(*a, **k)
        except exc:
            return True
        return False


# ---------------------------------------------------------------------------

class SymWorld(BaseWorld):
    symbolic = True

    def __init__(self, ex, world):
        self.ex = ex
        self.world = world
        self.obs = []

    def z(self, dotted):
        return self.world.get('zounds.' + dotted if dotted else 'zounds')

    @property
    def np(self):
        return self.world.np

    # inputs
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.ex.input(name, v, 'int')
        x = SymInt(v)
        if lo is not None:
            self.ex.add(engine.int_e(lo) <= v)
        if hi is not None:
            self.ex.add(v <= engine.int_e(hi))
        if is_sym(lo) or is_sym(hi):
            self.assume(True if lo is None or hi is None else lo <= hi)
        return x

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.ex.input(name, v, 'real')
        if lo is not None:
            self.ex.add(engine.real_e(lo) <= v)
        if hi is not None:
            self.ex.add(v <= engine.real_e(hi))
        return SymFloat(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.ex.input(name, v, 'bool')
        return SymBool(v)

    def bv(self, name, bits=64, signed=False):
        v = z3.BitVec(name, bits)
        self.ex.input(name, v, 'bv')
        return SymBV(v, signed)

    def pick(self, name, n):
        v = z3.Int(name)
        self.ex.input(name, v, 'int')
        self.ex.add(z3.And(v >= 0, v < n))
        return self.ex.concretize(v)

    def array(self, name, shape, lo=None, hi=None, dtype=float):
        """an array whose elements are inputs"""
        from . import anp
        d = np.dtype(dtype)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*o.shape):
            n = name + ''.join('_%d' % k for k in i)
            if d.kind == 'f':
                o[i] = self.real(n, lo, hi)
            elif d.kind == 'b':
                o[i] = self.bool(n)
            elif d.kind == 'c':
                o[i] = anp.SymComplex(self.real(n + 'r', lo, hi),
                                      self.real(n + 'i', lo, hi))
            elif d == np.uint64:
                o[i] = self.bv(n, 64)
            else:
                b = 8 * d.itemsize
                a = 0 if d.kind == 'u' else -2 ** (b - 1)
                o[i] = self.int(n, a if lo is None else lo,
                                a + 2 ** b - 1 if hi is None else hi)
        return anp.wrap(o, d)

    def all(self, cond):
        """a condition on every element"""
        from . import anp
        if isinstance(cond, np.ndarray):
            return engine.And(*[anp.truth(v) for v in
                                anp.raw(cond).reshape(-1)])
        return cond

    def equal(self, a, b):
        """same shape, same elements"""
        from . import anp
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if np.shape(a) != np.shape(b):
                return False
            return self.all(anp.as_sym(a) == anp.as_sym(b))
        return a == b

    def near(self, a, b, tol=1e-6):
        """same shape, elements which differ by at most tol"""
        from . import anp
        if np.shape(a) != np.shape(b):
            return False
        d = anp.as_sym(a) - anp.as_sym(b)
        if not isinstance(d, np.ndarray):
            d = anp.as_sym([d])
        return engine.And(*[engine.And(v <= tol, v >= -tol) for v in
                            [x for y in anp.raw(d).reshape(-1) for x in (
                                (y.re, y.im) if isinstance(
                                    y, anp.SymComplex) else (y,))]])

    def constant(self, x):
        """a given array"""
        from . import anp
        return anp.as_sym(np.asarray(x))

    def bits(self, v, bits=64, signed=False):
        """the machine integer with this value"""
        return v if is_sym(v) else SymBV(z3.BitVecVal(int(v), bits), signed)

    @contextlib.contextmanager
    def chance(self, log=None):
        """np.random is an adversary; log receives its draws of integers"""
        self.ex._draws = log
        try:
            yield
        finally:
            self.ex._draws = None

    def npint(self, v):
        return engine.SymNpInt(engine.int_e(v))

    def intarray(self, vs):
        out = np.empty(len(vs), dtype=object)
        out[:] = vs
        return out

    def td(self, v, unit='ps'):
        return TD.mk(v, unit)

    def ps(self, t):
        return t.ps() if isinstance(t, TD) else TD(t).ps()

    def labels(self, shape, dtype="float64"):
        """an array whose element values identify their position"""
        shape = tuple(shape)

        def fn(idx):
            return label_of(idx)
        return lnp.LazyArr.from_function(shape, fn, dtype)

    def positions(self, n):
        """a one-dimensional array of n samples, whose elements can be
        located again with `position`"""
        return self.labels((n,))

    def position(self, base, arr, k):
        """the index in `base` of the sample that is arr[k]"""
        return arr.at((k,))

    def concretely(self, x):
        """fork over the values of x"""
        if is_sym(x):
            return x.__index__()
        return x

    def concretely_bool(self, x):
        return bool(x)

    def sym_hash(self):
        self.ex.sym_hash = True

    def fork_signs(self):
        """one path for each sign that abs or sign asks for"""
        self.ex.fork_sign = True

    def same_hash(self, x, y):
        """both hash the same values"""
        logs = []
        for v in (x, y):
            del self.ex.hashed[:]
            h = hash(v)
            logs.append((h, list(self.ex.hashed)))
        (h, a), (g, b) = logs
        if h != g or len(a) != len(b):
            return False
        return self.And(*[SymBool(p == q) for p, q in zip(a, b)]) \
            if a else True

    def ite(self, c, a, b):
        return engine.ite(engine.as_bool(c) if is_sym(c) else c, a, b)

    def to_int(self, x):
        return shadow.sym_int(x)

    def assume(self, cond):
        self.ex.assume(cond)

    def check(self, cond, label):
        self.ex.check(cond, label)

    def observe(self, name, value):
        self.obs.append((name, value))

    def dims(self, arr):
        return arr.dimensions


def label_of(idx):
    acc = 0
    for i in idx:
        acc = acc * 1000003 + i
    return acc


# ---------------------------------------------------------------------------

class ConcreteWorld(BaseWorld):
    symbolic = False

    def __init__(self, inputs, rng=None):
        self.inputs = inputs
        self.obs = []
        self.rng = rng
        self.np = np
        self.checked = 0
        self.used = {}

    def z(self, dotted):
        if not dotted:
            return importlib.import_module('zounds')
        parts = ('zounds.' + dotted).split('.')
        for k in range(len(parts), 0, -1):
            try:
                m = importlib.import_module('.'.join(parts[:k]))
            except ImportError:
                continue
            for p in parts[k:]:
                m = getattr(m, p)
            return m
        raise ImportError(dotted)

    def _get(self, name, gen):
        if name in self.inputs:
            v = self.inputs[name]
        elif self.rng is not None:
            v = gen()
        else:
            raise Skip('no value for %s' % name)
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        def gen():
            a = -10 if lo is None else int(lo)
            b = a + 50 if hi is None else min(int(hi), a + 50)
            if b < a:
                raise Skip()
            return self.rng.randint(a, b)
        v = int(self._get(name, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def real(self, name, lo=None, hi=None):
        def gen():
            a = -1.0 if lo is None else float(lo)
            b = a + 2 if hi is None else float(hi)
            return self.rng.uniform(a, b)
        v = float(self._get(name, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < .5))

    def bv(self, name, bits=64, signed=False):
        v = int(self._get(name, lambda: self.rng.getrandbits(bits)))
        if signed and v >= 2 ** (bits - 1):
            v -= 2 ** bits
        t = {64: np.uint64, 32: np.uint32, 8: np.uint8, 16: np.uint16}
        s = {64: np.int64, 32: np.int32, 8: np.int8, 16: np.int16}
        return (s if signed else t)[bits](v)

    def pick(self, name, n):
        v = int(self._get(name, lambda: self.rng.randrange(n)))
        if not 0 <= v < n:
            raise Skip(name)
        return v

    def array(self, name, shape, lo=None, hi=None, dtype=float):
        d = np.dtype(dtype)
        o = np.empty(shape, dtype=d)
        for i in np.ndindex(*o.shape):
            n = name + ''.join('_%d' % k for k in i)
            if d.kind == 'f':
                o[i] = self.real(n, lo, hi)
            elif d.kind == 'b':
                o[i] = self.bool(n)
            elif d.kind == 'c':
                o[i] = complex(self.real(n + 'r', lo, hi),
                               self.real(n + 'i', lo, hi))
            elif d == np.uint64:
                o[i] = self.bv(n, 64)
            else:
                b = 8 * d.itemsize
                a = 0 if d.kind == 'u' else -2 ** (b - 1)
                o[i] = self.int(n, a if lo is None else lo,
                                a + 2 ** b - 1 if hi is None else hi)
        return o

    def all(self, cond):
        return bool(np.all(cond))

    def equal(self, a, b):
        return bool(np.shape(a) == np.shape(b) and np.all(
            np.asarray(a) == np.asarray(b)))

    def near(self, a, b, tol=1e-6):
        a, b = np.asarray(a), np.asarray(b)
        return bool(a.shape == b.shape and (
            not a.size or np.all(np.abs(a - b) <= tol / 2)))

    def constant(self, x):
        return np.array(x)

    def bits(self, v, bits=64, signed=False):
        return int(v)

    @contextlib.contextmanager
    def chance(self, log=None):
        from . import chance
        with chance.dealt(self, log):
            yield

    def npint(self, v):
        return np.int64(v)

    def intarray(self, vs):
        return np.array([int(v) for v in vs], dtype=np.int64)

    def td(self, v, unit='ps'):
        if not -2 ** 63 < v < 2 ** 63:
            raise Skip('out of the int64 range')
        return np.timedelta64(int(v), unit)

    def ps(self, t):
        return TD(t).ps()

    def labels(self, shape, dtype="float64"):
        shape = tuple(int(s) for s in shape)
        n = 1
        for s in shape:
            n *= max(s, 1)
        if n > 40000000:
            raise Skip('array too large to build concretely')
        if not shape:
            return np.zeros((), dtype)
        out = np.arange(shape[0], dtype=np.float64)
        for s in shape[1:]:
            out = out[..., None] * 1000003 + np.arange(s)
        return out.astype(dtype)

    def positions(self, n):
        n = int(n)
        if n > 6 * 10 ** 9:
            raise Skip('array too large')
        return np.zeros(n, dtype=np.uint8)

    def position(self, base, arr, k):
        a = arr.__array_interface__['data'][0] + k * arr.strides[0]
        return (a - base.__array_interface__['data'][0]) // base.strides[0]

    def concretely(self, x):
        return x

    def concretely_bool(self, x):
        return bool(x)

    def sym_hash(self):
        pass

    def fork_signs(self):
        pass

    def same_hash(self, x, y):
        return hash(x) == hash(y)

    def ite(self, c, a, b):
        return a if c else b

    def to_int(self, x):
        return int(x)

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def check(self, cond, label):
        self.checked += 1
        if not bool(cond):
            raise Violation(label)

    def observe(self, name, value):
        self.obs.append((name, value))

    def dims(self, arr):
        return arr.dimensions


# ---------------------------------------------------------------------------

class Harness(object):
    def __init__(self, name, fn, make_world, configs=((),), tiers=('quick', 'thorough'),
                 max_paths=4000, max_decisions=300, bounds='', timeout_ms=15000,
                 patch=None, validate=6, stubs=(), concrete_patch=None,
                 path_seconds=200, deep=(), deep_paths=40000):
        self.deep = list(deep)
        self.deep_paths = deep_paths
        self.path_seconds = path_seconds
        self.name = name
        self.fn = fn
        self.make_world = make_world
        self.configs = list(configs)
        self.tiers = tiers
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.bounds = bounds
        self.timeout_ms = timeout_ms
        self.validate = validate
        self.stubs = stubs


def _unusable(e, tb):
    """the check failed to use what the real code yielded, because there is
    nothing, or not enough of it"""
    if not all(os.path.dirname(os.path.abspath(f.filename)) in
               (HERE, CHECKS) for f in tb):
        return False
    if os.path.dirname(os.path.abspath(tb[-1].filename)) != CHECKS:
        return False
    return isinstance(e, (IndexError, AssertionError)) or \
        'NoneType' in str(e) or (
            isinstance(e, ValueError) and 'values to unpack' in str(e))


def run_concrete(h, cfg, inputs, rng=None):
    """returns ('ok'|'skip'|'violation', label, detail, world)"""
    w = ConcreteWorld(inputs, rng)
    try:
        h.fn(w, *cfg)
    except Skip as e:
        return 'skip', str(e), '', w
    except Violation as e:
        return 'violation', e.label, e.detail, w
    except (engine.PathEnd, Unsupported) as e:
        return 'error', repr(e), '', w
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(f.filename.startswith(REPO + os.sep) for f in tb)
        detail = ''.join(traceback.format_exception(e)[-6:])
        if in_repo and isinstance(e, AttributeError) and e.obj is not None:
            # a stand-in which has not got all that the original has
            kind = e.obj if isinstance(e.obj, type) else type(e.obj)
            if kind.__module__.split('.')[0] in ('checks', 'symz'):
                in_repo = False
        return ('violation' if in_repo or _unusable(e, tb) else 'error',
                'unexpected exception: %s: %s' % (type(e).__name__, str(e)[:200]),
                detail, w)
    return 'ok', '', '', w


def jsonable(inputs):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, Fraction):
            out[k] = {'num': str(v.numerator), 'den': str(v.denominator)}
        else:
            out[k] = v
    return out


def unjson(inputs):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, dict):
            out[k] = Fraction(int(v['num']), int(v['den']))
        else:
            out[k] = v
    return out


class FunctionTracker(object):
    """records which functions of /repo were executed symbolically"""

    def __init__(self):
        self.seen = set()
        self.tool = 3

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.tool, 'symz')
        except ValueError:
            return self

        def on_start(code, off):
            f = code.co_filename
            if f.startswith(REPO + os.sep):
                if not code.co_name.startswith('<'):
                    self.seen.add('%s:%s' % (
                        os.path.relpath(f, REPO), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, on_start)
        mon.set_events(self.tool, mon.events.PY_START)
        return self

    def stop(self):
        mon = sys.monitoring
        try:
            mon.set_events(self.tool, 0)
            mon.free_tool_id(self.tool)
        except ValueError:
            pass


class Result(object):
    pass


class _Alarm(Exception):
    pass


def _with_alarm(seconds, fn):
    def on(*a):
        raise _Alarm()
    old = signal.signal(signal.SIGALRM, on)
    signal.alarm(seconds)
    try:
        return fn()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def compare_obs(model, sym_obs, con_obs):
    """differences between the symbolic and the concrete observations"""
    bad = []
    for (n1, a), (n2, b) in zip(sym_obs, con_obs):
        if n1 != n2:
            bad.append((n1, n2))
            continue
        try:
            va = concretise_obs(model, a)
            vb = concretise_obs(None, b)
        except Unsupported:
            continue
        if isinstance(va, (Fraction, float)) or isinstance(vb, (Fraction, float)):
            try:
                x, y = float(va), float(vb)
            except (TypeError, ValueError):
                bad.append((n1, str(va), str(vb)))
                continue
            if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
                bad.append((n1, x, y))
        elif va != vb:
            bad.append((n1, str(va), str(vb)))
    return bad


def concretise_obs(model, x):
    if isinstance(x, (SymInt, SymFloat, SymBool, SymBV)):
        return engine.value_of(model, x.e)
    if type(x) is TD:
        return concretise_obs(model, x.ps())
    if isinstance(x, np.timedelta64):
        return TD(x).ps()
    if isinstance(x, (list, tuple)):
        return tuple(concretise_obs(model, y) for y in x)
    if isinstance(x, np.ndarray):
        return tuple(concretise_obs(model, y) for y in x.reshape(-1).tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    return x


def explore(h, cfg, deadline, seed=1):
    """Explore one harness configuration. Returns a Result."""
    r = Result()
    r.harness, r.cfg = h.name, cfg
    r.violation = None
    r.inconclusive = []
    r.validated = 0
    r.mismatch = []
    r.samples = []
    r.fallback_runs = 0
    t0 = time.time()
    ex = Explorer(max_decisions=h.max_decisions, timeout_ms=h.timeout_ms,
                  deadline=deadline)
    engine.set_explorer(ex)
    tracker = FunctionTracker().start()
    rng = random.Random(seed)
    try:
        world = h.make_world()
        while ex.worklist:
            if ex.stats.paths >= h.max_paths:
                r.inconclusive.append('path budget (%d) exhausted' % h.max_paths)
                break
            if deadline and time.time() > deadline:
                r.inconclusive.append('time budget exhausted')
                break
            prefix = ex.worklist.pop()
            ex.start_path(prefix)
            ex.stats.paths += 1
            sw = SymWorld(ex, world)
            if hasattr(world, 'new_path'):
                world.new_path()
            failure = None
            try:
                _with_alarm(h.path_seconds, lambda: h.fn(sw, *cfg))
            except _Alarm:
                failure = ('exception', 'does not return within %d s'
                           % h.path_seconds, None, None)
            except PathEnd:
                continue
            except CounterExample as ce:
                failure = ('check', ce.label, ce.inputs, ce.info)
            except UndecidedCheck as uc:
                failure = ('undecided', uc.label, uc.inputs, None)
            except Unsupported as u:
                failure = ('unsupported', str(u), None, None)
                r.last_tb = traceback.format_exc()
            except RecursionError as e:
                failure = ('unsupported', 'recursion', None, None)
            except Exception as e:
                failure = ('exception', '%s: %s' % (type(e).__name__, str(e)[:300]),
                           None, None)
                r.last_tb = traceback.format_exc()
            if failure is None:
                # a complete path: validate some of them against real code
                if r.validated < h.validate or rng.random() < 0.02:
                    m = ex.path_model()
                    if m is not None:
                        inputs = ex.model_inputs(m)
                        st, label, detail, cw = run_real(h, cfg, inputs)
                        if st == 'ok':
                            r.validated += 1
                            bad = compare_obs(m, sw.obs, cw.obs)
                            if bad and not ex.approx:
                                r.mismatch.append((jsonable(inputs), bad))
                            if len(r.samples) < 2:
                                r.samples.append(jsonable(inputs))
                        elif st == 'violation':
                            r.violation = (label, inputs, detail)
                            break
                        elif st == 'error':
                            r.mismatch.append((jsonable(inputs), [label]))
                continue
            kind, label, inputs, more = failure
            if handle_failure(h, cfg, ex, r, kind, label, inputs, more):
                break
    finally:
        tracker.stop()
        r.functions = sorted(tracker.seen)
        ex.active = False
    r.stats = ex.stats
    r.pending = len(ex.worklist)
    r.wall = time.time() - t0
    if r.violation is None and not r.inconclusive:
        dead = [k for k, v in ex.stats.witness.items() if not v]
        if not ex.stats.witness:
            r.inconclusive.append('vacuous: no assertion was reached')
        if dead:
            r.inconclusive.append('vacuous assertions: %s' % dead)
    return r


def run_real(h, cfg, inputs):
    """the harness against the real package, in this process"""
    saved = engine.E
    was = saved.active if saved else False
    try:
        return _with_alarm(30, lambda: run_concrete(h, cfg, inputs))
    except _Alarm:
        return 'violation', 'the real code did not return within 30 s', '', None


def handle_failure(h, cfg, ex, r, kind, label, inputs, more):
    """decide whether a symbolic failure is real. True = stop exploring"""
    candidates = []
    if inputs is not None:
        candidates.append(inputs)
    if kind in ('unsupported', 'exception', 'undecided'):
        s = z3.Solver()
        s.set('timeout', ex.timeout_ms)
        for p in ex.pc:
            s.add(p)
        for _ in range(6 if kind != 'exception' else 3):
            if s.check() != z3.sat:
                break
            m = s.model()
            candidates.append(ex.model_inputs(m))
            diff = [e != m.eval(e, model_completion=True)
                    for e in ex.inputs.values()]
            if not diff:
                break
            s.add(z3.Or(*diff))
    tried = []
    it = iter(candidates)
    if more is not None:
        it = itertools.chain(candidates, more())
    for inp in it:
        st, lab, detail = replay_isolated(h, cfg, inp)
        tried.append((st, lab))
        r.fallback_runs += 1
        if st == 'violation':
            r.violation = (lab, inp, detail)
            return True
    note = '%s: %s (replays: %s)' % (kind, label, [t[0] for t in tried][:6])
    if kind == 'check':
        r.inconclusive.append('UNREPRODUCED ' + note + ' ' + json.dumps(
            jsonable(inputs), default=str)[:600] + ' ' + str(tried[:2]))
    else:
        if kind in ('exception', 'unsupported'):
            note += '\n' + getattr(r, 'last_tb', '')[-1500:]
        r.inconclusive.append(note)
    return False


def poison():
    """memory which nobody wrote to does not happen to be zero"""
    try:
        ctypes.CDLL(None).mallopt(-6, 1)
    except (OSError, AttributeError):
        pass
    for n in range(1, 1025):
        xs = [np.empty(n, np.uint8) for _ in range(8)]
        for x in xs:
            x[...] = 255


class Unwritten(object):
    """a ufunc which leaves what `where` excludes as numpy documents it, at
    whatever the memory holds"""

    def __init__(self, real):
        self.real = real

    def __call__(self, *a, **k):
        r = self.real(*a, **k)
        if k.get('where') is not None and k.get('out') is None \
                and len(a) <= self.real.nin and isinstance(r, np.ndarray) \
                and r.dtype.kind in 'fc':
            w = np.broadcast_to(np.asarray(k['where']), r.shape)
            r.view(np.ndarray)[~w] = -3.4e38
        return r

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __eq__(self, other):
        return self.real == getattr(other, 'real', other)

    def __hash__(self):
        return hash(self.real)


def unwritten():
    for n in ('divide', 'true_divide', 'add', 'subtract', 'multiply', 'power',
              'sqrt', 'log', 'log10', 'log2', 'log1p', 'exp', 'abs',
              'absolute', 'reciprocal', 'floor_divide', 'mod'):
        u = getattr(np, n)
        if isinstance(u, np.ufunc):
            setattr(np, n, Unwritten(u))


def replay_isolated(h, cfg, inputs, timeout=60):
    """replay in a forked child, so that a crash or hang of the real code
    cannot take the check down"""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            poison()
            before = dict(vars(np))
            unwritten()
            st, lab, detail, _ = run_concrete(h, cfg, inputs)
            if st == 'error':
                # the code may tell ufuncs from one another
                for k, v in before.items():
                    setattr(np, k, v)
                st, lab, detail, _ = run_concrete(h, cfg, inputs)
            data = json.dumps([st, lab, detail]).encode()
            os.write(wfd, data[:60000])
        except BaseException as e:
            try:
                os.write(wfd, json.dumps(['error', repr(e), '']).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(wfd)
    import select
    buf = b''
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(rfd)
            return ('violation',
                    'the real code did not return within %d s' % timeout, '')
        rl, _, _ = select.select([rfd], [], [], left)
        if rl:
            chunk = os.read(rfd, 65536)
            if not chunk:
                break
            buf += chunk
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if not buf:
        return 'violation', 'the real code crashed (status %d)' % status, ''
    st, lab, detail = json.loads(buf.decode())
    return st, lab, detail
