"""Factories for the shadow worlds used by the harnesses."""
import types
import numpy as np
from . import shadow, lnp, wire, engine
from .engine import Unsupported

_cache = {}


def countbits_stub(np_proxy):
    """the compiled extension, which exports its numpy along with its
    functions; C10 encodes it from its source"""
    m = types.ModuleType('countbits')

    def refuse(*a, **k):
        raise Unsupported('compiled extension')
    m.np = np_proxy
    m.count_bits = m.count_packed_bits = refuse
    return m


def world_b():
    """numpy arrays of symbolic shape (lnp.LazyArr)"""
    if 'b' not in _cache:
        p = lnp.LNp()
        _cache['b'] = shadow.World(p, overrides=dict(
            wire.overrides(), countbits=countbits_stub(p)))
    return _cache['b']


def world_t():
    """as world_b, with streams of bytes and sound files that are stand-ins"""
    if 't' not in _cache:
        from . import stream
        p = lnp.LNp()
        _cache['t'] = shadow.World(p, overrides=dict(
            wire.overrides(), countbits=countbits_stub(p),
            **stream.modules()))
    return _cache['t']


def scipy_stub():
    """the linear transforms are applied as matrices, taken from the real
    library"""
    import scipy
    import scipy.fftpack
    import scipy.signal
    import scipy.spatial.distance
    from . import anp

    def linear(name, real):
        def f(x, type=2, n=None, axis=-1, norm=None, overwrite_x=False):
            if not isinstance(x, anp.SymArr):
                return real(x, type, n, axis, norm)
            s = anp.fit(anp.as_sym(x), n, axis)
            m = anp.by_matrix(lambda v: real(v, type, norm=norm),
                              (name, type, norm), s.shape[axis])
            return anp.linear_map(m, s, axis)
        return f

    def copy(real):
        m = types.ModuleType(real.__name__)
        m.__dict__.update({k: v for k, v in real.__dict__.items()
                           if not k.startswith('__')})
        return m

    def refuse(name, real):
        def f(x, *a, **k):
            if isinstance(x, anp.SymArr):
                if anp.is_concrete(x):
                    return anp.from_native(real(anp.to_native(x), *a, **k))
                raise Unsupported(name)
            return real(x, *a, **k)
        return f
    fp = copy(scipy.fftpack)
    fp.dct = linear('dct', scipy.fftpack.dct)
    fp.idct = linear('idct', scipy.fftpack.idct)

    def resample(x, num, t=None, axis=0, window=None, domain='time'):
        if not isinstance(x, anp.SymArr):
            return scipy.signal.resample(x, num, t, axis, window)
        if t is not None or window is not None:
            raise Unsupported('scipy.signal.resample options')
        num = int(num)
        m = anp.by_matrix(lambda v: scipy.signal.resample(v, num, axis=-1),
                          ('resample', num), x.shape[axis])
        return anp.linear_map(m, anp.as_sym(x), axis)
    sg = copy(scipy.signal)
    sg.resample = resample
    for n in ('fftconvolve', 'lfilter', 'correlate'):
        setattr(sg, n, refuse(n, getattr(scipy.signal, n)))

    def convolve(a, v, mode='full', method='auto'):
        if not isinstance(a, anp.SymArr) and not isinstance(v, anp.SymArr):
            return scipy.signal.convolve(a, v, mode, method)
        a, v = anp.raw(anp.as_sym(a)), anp.raw(anp.as_sym(v))
        if a.ndim != v.ndim or mode not in ('full', 'same'):
            raise Unsupported('convolve')
        full = np.empty([m + n - 1 for m, n in zip(a.shape, v.shape)],
                        dtype=object)
        full[...] = 0.0
        for i in np.ndindex(*v.shape):
            at = tuple(slice(k, k + m) for k, m in zip(i, a.shape))
            full[at] = full[at] + a * v[i]
        if mode == 'same':
            full = full[tuple(slice((f - m) // 2, (f - m) // 2 + m)
                              for f, m in zip(full.shape, a.shape))]
        return anp.wrap(full.copy(), np.float64)
    sg.convolve = convolve
    def cdist(a, b, metric='euclidean'):
        if not isinstance(a, anp.SymArr) and not isinstance(b, anp.SymArr):
            return scipy.spatial.distance.cdist(a, b, metric)
        a, b = anp.raw(anp.as_sym(a)), anp.raw(anp.as_sym(b))
        if a.ndim != 2 or b.ndim != 2 or a.shape[1] != b.shape[1]:
            raise ValueError('shapes')
        out = np.empty((len(a), len(b)), dtype=object)
        for i in range(len(a)):
            for j in range(len(b)):
                d = [x - y for x, y in zip(a[i], b[j])]
                if metric == 'cityblock':
                    v = sum(abs(x) for x in d)
                elif metric in ('euclidean', 'sqeuclidean'):
                    v = sum(x * x for x in d)
                    if metric == 'euclidean':
                        v = anp.sqrt_(v)
                elif metric == 'chebyshev':
                    v = d[0] * 0
                    for x in d:
                        v = engine.ite(abs(x) > v, abs(x), v)
                elif metric == 'cosine':
                    v = 1 - sum(x * y for x, y in zip(a[i], b[j])) / \
                        anp.sqrt_(sum(x * x for x in a[i]) *
                                  sum(y * y for y in b[j]))
                else:
                    raise Unsupported('cdist ' + str(metric))
                out[i, j] = v
        return anp.wrap(out, np.float64)
    sd = copy(scipy.spatial.distance)
    sd.cdist = cdist
    sp = copy(scipy.spatial)
    sp.distance = sd
    top = copy(scipy)
    top.fftpack, top.signal, top.spatial = fp, sg, sp
    return {'scipy': top, 'scipy.fftpack': fp, 'scipy.signal': sg,
            'scipy.spatial': sp, 'scipy.spatial.distance': sd}


def hashlib_stub():
    """digests of symbolic data are told apart by what they are made of"""
    import hashlib
    from . import anp
    m = types.ModuleType('hashlib')
    m.__dict__.update({k: v for k, v in hashlib.__dict__.items()
                       if not k.startswith('__')})

    class MD5(object):
        def __init__(self, data=b''):
            self.h = hashlib.md5()
            self.update(data)

        def update(self, data):
            if isinstance(data, np.ndarray) and type(data) is np.ndarray \
                    and data.dtype == object:
                data = data.tobytes()  # addresses
            elif type(data) is np.ndarray:
                pass
            elif isinstance(data, np.ndarray):
                data = repr((data.shape, str(data.dtype), [
                    str(getattr(v, 'e', v)) for v in
                    anp.raw(data).reshape(-1)])).encode()
            self.h.update(data)

        def hexdigest(self):
            return self.h.hexdigest()

        def digest(self):
            return self.h.digest()
    m.md5 = MD5
    return m


def world_a():
    """numpy arrays of concrete shape with symbolic elements (anp.SymArr)"""
    if 'a' not in _cache:
        from . import anp, cyth, chance
        p = anp.ANp(random=chance.Chance())
        over = dict(wire.overrides())
        over.update(scipy_stub())
        over['hashlib'] = hashlib_stub()
        over['countbits'] = cyth.module(p)
        _cache['a'] = shadow.World(p, overrides=over)
    return _cache['a']


def world_s():
    """as world_a, with databases and worker pools that are stand-ins"""
    if 's' not in _cache:
        from . import anp, cyth, chance, store
        p = anp.ANp(random=chance.Chance())
        over = dict(wire.overrides())
        over.update(scipy_stub())
        over['hashlib'] = hashlib_stub()
        over['countbits'] = cyth.module(p)
        over['lmdb'] = store.module
        over.update(store.multiprocessing())
        _cache['s'] = shadow.World(p, overrides=over)
    return _cache['s']
