"""C33: tensors are transformed as arrays are."""
import numpy as np
from symz import engine, tens
from symz.harness import Harness
from symz.worlds import world_a
from .c32 import patched


def tensors(w, name):
    """the module `name` works with tensors"""
    mod = w.z(name)
    if not w.symbolic:
        return patched(mod)
    k = dict(torch=tens.torch(w))
    if hasattr(mod, 'Variable'):
        k['Variable'] = lambda x, **k: x
    return patched(mod, **k)


def tensor(w, a):
    if w.symbolic:
        return tens.Tensor(a)
    import torch
    return torch.from_numpy(np.array(a)).float()


def array(w, t):
    return t.a if w.symbolic else t.data.cpu().numpy().astype(np.float64)


def near(w, a, b, tol=1e-5):
    return w.near(a, b, tol)


def dct(w, shape):
    """the same as of arrays, and back"""
    from scipy.fftpack import dct as reference
    x = w.array('x', shape, -1, 1)
    n = shape[-1]
    m = reference(np.eye(n), norm='ortho', axis=-1)
    with tensors(w, 'learn.dct_transform'):
        d = w.z('learn.DctTransform')()
        t = tensor(w, x)
        c = d.dct(t)
        w.check(c.shape == shape, 'shape')
        want = w.np.dot(x, w.constant(m))
        w.check(near(w, array(w, c), want), 'as of arrays')
        w.check(near(w, array(w, d.idct(c)), x), 'and back')


def resample(w, shape, factors):
    """frequencies which the new length has are kept"""
    x = w.array('x', shape, -1, 1)
    n = shape[-1]
    with tensors(w, 'learn.dct_transform'):
        d = w.z('learn.DctTransform')()
        f = w.choice('factor', factors)
        t = tensor(w, x)
        r = d.dct_resample(t, f)
        m = int(f * n)
        w.check(r.shape == shape[:-1] + (m,), 'length')
        a, b = array(w, d.dct(t)), array(w, d.dct(r))
        k = min(m, n)
        w.check(near(w, b[..., :k], a[..., :k]), 'kept')
        if m > n:
            w.check(near(w, b[..., n:], b[..., n:] * 0), 'none are added')
        z = slice(0, 1)
        r = d.dct_resample(t, f, zero_slice=z)
        b = array(w, d.dct(r))
        w.check(near(w, b[..., z], b[..., z] * 0), 'removed')
        w.check(near(w, b[..., 1:k], a[..., 1:k]), 'others are kept')


def bands(w, shape, factors):
    """bands are the frequencies between these factors"""
    x = w.array('x', shape, -1, 1)
    n = shape[-1]
    with tensors(w, 'learn.dct_transform'):
        d = w.z('learn.DctTransform')()
        t = tensor(w, x)
        a = array(w, d.dct(t))
        out = d.frequency_decomposition(t, factors)
        w.check(len(out) == len(factors), 'bands')
        at = 0
        for f, band in zip(sorted(factors), out):
            stop = int(f * n)
            w.check(band.shape == shape[:-1] + (stop,), 'length')
            b = array(w, d.dct(band))
            w.check(near(w, b[..., at:], a[..., at:stop]), 'its frequencies')
            if at:
                w.check(near(w, b[..., :at], b[..., :at] * 0), 'no others')
            at = stop


def short(w, n, size, step, batch):
    """transforms of windows, frequencies first"""
    from scipy.fftpack import dct as reference
    x = w.array('x', (batch, 1, n), -1, 1)
    S = w.z('spectral')
    funcs = [S.HanningWindowingFunc(), S.OggVorbisWindowingFunc()]
    if w.choice('second', (False, True)):
        funcs.reverse()
    m = reference(np.eye(size), norm='ortho', axis=-1)
    with tensors(w, 'learn.dct_transform'):
        d = w.z('learn.DctTransform')()
        t = tensor(w, x)
        for f in funcs:
            y = array(w, d.short_time_dct(t, size, step, f))
            frames = (n - size) // step + 1
            w.check(y.shape == (batch, size, frames), 'shape')
            wd = np.asarray(f._wdata(size), dtype=float) \
                if not w.symbolic else f._wdata(size)
            for k in range(frames):
                part = x[:, 0, k * step: k * step + size] * wd
                w.check(near(w, y[:, :, k], w.np.dot(part, w.constant(m))),
                        'of each window')


def norms(w, kind, shape):
    x = w.array('x', shape, -1, 1)
    w.assume(w.And(*[w.Or(v > .1, v < -.1) for v in flat(w, x)]))
    if kind == 'spread':
        # values which differ
        for row in range(shape[0]):
            a, b = flat(w, x[row])[:2]
            w.assume(w.Or(a - b > .1, b - a > .1))
    with tensors(w, 'learn.util'):
        U = w.z('learn.util')
        t = tensor(w, x)
        if kind == 'sample':
            y = array(w, U.sample_norm(t))
            for i in range(shape[0]):
                for k in range(shape[2]):
                    p, q = flat(w, x[i, :, k]), flat(w, y[i, :, k])
                    s = sum(v * v for v in p) / len(p)
                    check_scaled(w, p, q, s)
            return
        y = array(w, {'unit': U.batchwise_unit_norm,
                      'spread': U.batchwise_mean_std_normalization}[kind](t))
        w.check(y.shape == shape, 'shape')
        for i in range(shape[0]):
            p, q = flat(w, x[i]), flat(w, y[i])
            if kind == 'spread':
                m = sum(p) / len(p)
                p = [v - m for v in p]
                s = sum(v * v for v in p) / (len(p) - 1)
            else:
                s = sum(v * v for v in p)
            check_scaled(w, p, q, s)


def check_scaled(w, p, q, s):
    for a, b in zip(p, q):
        d = b * b * s - a * a
        w.check(w.And(d <= 1e-3, d >= -1e-3), 'in proportion')
        w.check(w.And(w.Implies(a > 1e-4, b > 0),
                      w.Implies(a < -1e-4, b < 0)), 'same sign')


def flat(w, a):
    from symz import anp
    a = anp.raw(a) if w.symbolic else a
    return list(np.asarray(a).reshape(-1))


def sizes(w):
    """how large what a layer makes is"""
    inp, kernel = w.int('inp', 1, 10 ** 6), w.int('kernel', 1, 1000)
    stride, pad = w.int('stride', 1, 1000), w.int('pad', 0, 1000)
    w.assume(kernel <= inp + 2 * pad)
    n = w.z('learn.feature_map_size')(inp, kernel, stride, pad)
    w.check(isinstance(n, (int, np.integer, engine.SymInt)), 'an integer')
    # the last position of the kernel, and the one after it
    last = (n - 1) * stride + kernel
    w.check(w.And(last <= inp + 2 * pad, last + stride > inp + 2 * pad),
            'positions of the kernel')


HARNESSES = [
    Harness('dct', dct, world_a, [((2, 3),), ((1, 4),), ((1, 2, 5),)],
            bounds='up to 5 samples of any content'),
    Harness('resample', resample, world_a,
            [((1, 4), (.5, 1, 2, 1.5, .3)), ((2, 1, 3), (.7, 1.4))],
            bounds='up to 4 samples of any content'),
    Harness('bands', bands, world_a,
            [((1, 8), (.25, .5, 1)), ((2, 4), (1, .5)), ((1, 1, 4), (.75,)),
             ((1, 5), (.35, .75, 1))],
            bounds='up to 8 samples of any content'),
    Harness('short', short, world_a, [(8, 4, 2, 1), (6, 4, 1, 2),
                                      (4, 4, 4, 1)],
            bounds='up to 8 samples of any content'),
    Harness('norms', norms, world_a,
            [('unit', (2, 2)), ('unit', (1, 2, 1)), ('spread', (2, 2)), ('sample', (1, 2, 2)), ('sample', (2, 1, 1))],
            bounds='up to 4 values between 0.1 and 1 or -1 and -0.1'),
    Harness('sizes', sizes, world_a, bounds='inputs of up to 10^6'),
]
ASSUMPTIONS = ['torch is stood in for by symbolic arrays, in real arithmetic']
