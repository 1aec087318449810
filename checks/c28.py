"""C28: bands, classes and descriptors gather the frequencies they stand for."""
import math
import numpy as np
import scipy.fftpack
from symz.harness import Harness
from symz.worlds import world_a
from .c14 import el, chunked
from .c24 import run, frames, rows, F


def spectrum(w, raw, scale, T=None):
    """a spectrogram with these coefficients"""
    TD, FD = w.z('timeseries.TimeDimension'), w.z('spectral.FrequencyDimension')
    dims = [TD(w.td(F), w.td(F))] * (raw.ndim - 1) + [FD(scale)]
    return w.z('core.ArrayWithUnits')(raw, dims)


def magnitude(w, v):
    if isinstance(v, complex) or hasattr(v, 're'):
        return w.np.sqrt(v.real * v.real + v.imag * v.imag)
    return w.ite(v < 0, -v, v)


def meets(w, band, k, lo, width):
    """does bin k of a linear scale take part in the band?"""
    return w.And(lo + k * width < band[1], lo + (k + 1) * width >= band[0])


def windows(w, kind, n):
    """a window function and its values for every size"""
    W = w.z('spectral.WindowingFunc')
    if kind == 'none':
        return None, lambda s: [1] * s
    if kind == 'identity':
        return w.z('spectral.IdentityWindowingFunc')(), lambda s: [1] * s
    if kind == 'hanning':
        return (w.z('spectral.HanningWindowingFunc')(),
                lambda s: [float(v) for v in np.hanning(s)])
    if kind == 'number':
        return 3., lambda s: [3] * s
    ws = {s: w.array('w%d' % s, (s,), .1, 2) for s in range(1, n + 1)}
    return W(lambda size: ws[size]), lambda s: [el(w, ws[s], i)
                                                for i in range(s)]


def gathered(w, n, k, window, how):
    """band i of the result is the windowed sum of the bins it meets"""
    w.sym_hash()
    S = w.z('spectral')
    lo, width = 0, 1000
    linear = S.LinearScale(S.FrequencyBand(lo, width * n), n)
    edges = []
    for i in range(k):
        a, b = w.real('a%d' % i, 0, width * n), w.real('b%d' % i, 0, width * n)
        w.assume(a < b)
        # rounding of the limits of bins is not of interest
        for v in (a, b):
            for j in range(n + 1):
                w.assume(w.Or(v - j * width > 1, v - j * width < -1))
        if edges:
            w.assume(w.And(a > edges[-1][0], b > edges[-1][1]))
        edges.append((a, b))
    scale = S.ExplicitScale([S.FrequencyBand(a, b) for a, b in edges])
    func, values = windows(w, window, n)
    raw = w.array('x', (2, n), -10, 10)
    keep = raw.copy()
    x = spectrum(w, raw, linear)
    if how == 'function':
        out = S.functional.apply_scale(x, scale, func) \
            if window != 'none' else S.functional.apply_scale(x, scale)
        part = lambda v: magnitude(w, v)
    elif how == 'node':
        out, = run(lambda s: S.spectral.BaseScaleApplication(
            scale, func, needs=s), [x])
        part = lambda v: v
    else:
        out = scale.apply(x, func)
        part = lambda v: v
    w.check(tuple(out.shape) == (2, k), 'frames and bands')
    if how != 'scale':
        w.check(out.dimensions[0] == x.dimensions[0], 'the same frames')
        w.check(isinstance(out.dimensions[1], S.FrequencyDimension) and
                out.dimensions[1].scale is scale, 'the bands of the scale')
    for i, e in enumerate(edges):
        ks = [j for j in range(n) if w.concretely_bool(
            meets(w, e, j, lo, width))]
        win = values(len(ks)) if ks else []
        for t in range(2):
            want = sum([part(el(w, raw, t, j)) * q for j, q in zip(ks, win)])
            w.check(w.near(el(w, out, t, i), want, 1e-6),
                    'the sum of the frequencies it meets')
    w.check(w.equal(raw, keep), 'the input is not changed')


def bark(w, n, k, top, cut, dtype):
    """bands of the bark scale, of the magnitudes"""
    S = w.z('spectral')
    scale = S.LinearScale(S.FrequencyBand(0, top), n)
    band = S.FrequencyBand(50, top)
    total = sum(cut)
    raw = w.array('x', (total, n), -10, 10, dtype=dtype)
    x = spectrum(w, raw, scale)
    chunks, at = [], 0
    for c in cut:
        chunks.append(x[at: at + c])
        at += c
    out = run(lambda s: S.BarkBands(band, k, needs=s), chunks)
    w.check(len(out) == len(cut), 'one for each chunk')
    bands = []
    z = lambda f: 6 * math.asinh(f / 600.)
    for i in range(k):
        b = z(50) + (z(top) - z(50)) * i / max(k - 1., 1)
        c = 600 * math.sinh(b / 6)
        e = .108 * c + 24.7
        bands.append((c - e / 2, c + e / 2))
    t = 0
    for o in out:
        w.check(o.shape[1] == k, 'as many bands as asked for')
        sc = o.dimensions[1].scale
        w.check(isinstance(sc, S.BarkScale) and len(sc) == k, 'bark bands')
        for s in range(o.shape[0]):
            for i, e in enumerate(bands):
                ks = [j for j in range(n)
                      if top * j / n < e[1] and top * (j + 1) / n >= e[0]]
                want = sum([magnitude(w, el(w, raw, t, j)) * float(q)
                            for j, q in zip(ks, np.hanning(len(ks)))])
                w.check(w.near(el(w, o, s, i), want, 1e-5),
                        'the sum of the magnitudes it meets')
            t += 1
    w.check(t == total, 'all frames')


def auditory(w, kind, lo, hi, n):
    """centers are evenly spaced on the scale, widths are those of the ear"""
    S = w.z('spectral')
    to, back = {
        'Bark': (lambda f: 6 * math.asinh(f / 600.),
                 lambda z: 600 * math.sinh(z / 6.)),
        'Mel': (lambda f: 1127 * math.log(1 + f / 700.),
                lambda z: 700 * (math.exp(z / 1127.) - 1))}[kind]
    scale = getattr(S, kind + 'Scale')(S.FrequencyBand(lo, hi), n)
    x = w.real('x', 0, 1)
    cls = getattr(S.frequencyscale, kind)
    bands = list(scale)
    w.check(len(bands) == n and len(scale) == n, 'number of bands')
    for i, b in enumerate(bands):
        c = back(to(lo) + (to(hi) - to(lo)) * i / max(n - 1., 1.))
        w.check(abs(b.center_frequency - c) < 1e-6 * c, 'evenly spaced')
        # any frequency of the width of the ear around the center
        f = c + (x - .5) * (.108 * c + 24.7)
        w.check(w.And(b.start_hz <= f + 1e-6 * c, f - 1e-6 * c <= b.stop_hz),
                'as wide as the ear hears them')
        w.check(abs(b.bandwidth - (.108 * c + 24.7)) < 1e-6 * c,
                'as wide as the ear hears them')
        w.check(abs(float(getattr(cls, 'to_' + kind.lower())(c)) - to(c)) <
                1e-6 * max(1, to(c)), 'of a frequency')
        u = cls(to(c))
        w.check(abs(float(u) - c) < 1e-6 * c and
                abs(getattr(u, kind.lower()) - to(c)) < 1e-9 * max(1, to(c)),
                'a value is its frequency')


def a_weight(f):
    n = 12200 ** 2 * f ** 4
    d = (f ** 2 + 20.6 ** 2) * (f ** 2 + 12200 ** 2) * math.sqrt(
        (f ** 2 + 107.7 ** 2) * (f ** 2 + 737.9 ** 2))
    return n / d


def chroma(w, n, lo, hi, top):
    """tones which are octaves apart are the same"""
    S = w.z('spectral')
    scale = S.LinearScale(S.FrequencyBand(0, top), n)
    raw = w.array('x', (1, n), -10, 10)
    x = spectrum(w, raw, scale)
    out, = run(lambda s: S.Chroma(
        S.FrequencyBand(lo, hi), window=S.IdentityWindowingFunc(), needs=s),
        [x])
    w.check(tuple(out.shape) == (1, 12), 'twelve classes')
    w.check(isinstance(out.dimensions[1], w.z('core.IdentityDimension')) and
            out.dimensions[0] == x.dimensions[0], 'for each frame')
    ws = [float(v) for v in S.AWeighting().weights(scale)]
    semi = lambda f: 12 * math.log(f / 440., 2)
    first, last = int(round(semi(lo))), int(round(semi(hi)))
    want = [0] * 12
    width = float(top) / n
    for s in range(first, last - 1):
        a, b = (440 * 2 ** ((s + d) / 12.) for d in (-1, 1))
        for j in range(n):
            if j * width < b and (j + 1) * width >= a:
                want[s % 12] = magnitude(w, el(w, raw, 0, j)) * ws[j] + \
                    want[s % 12]
    got = [el(w, out, 0, c) for c in range(12)]
    # where counting starts is a convention
    w.check(w.Or(*[w.And(*[w.near(got[(c + r) % 12], want[c], 1e-4)
                           for c in range(12)]) for r in (-1, 0)]),
            'the sum of the tones of its class')


def bfcc(w, n, coeffs, exclude, cut):
    """cosine transform of the log of the bands, without the first ones"""
    S = w.z('spectral')
    scale = S.LinearScale(S.FrequencyBand(0, 1000), n)
    total = sum(cut)
    raw = w.array('x', (total, n), .5, 10)
    x = spectrum(w, raw, scale)
    chunks, at = [], 0
    for c in cut:
        chunks.append(x[at: at + c])
        at += c
    kw = {} if coeffs is None else dict(n_coeffs=coeffs, exclude=exclude)
    out = run(lambda s: S.BFCC(needs=s, **kw), chunks)
    got = frames(w, out)
    w.check(len(got) == total, 'one for each frame')
    lo, m = (1, 13) if coeffs is None else (exclude, coeffs)
    basis = scipy.fftpack.dct(np.eye(n), axis=0)
    for t, g in enumerate(got):
        logs = [w.np.log(el(w, raw, t, j) + 1e-12) for j in range(n)]
        w.assume(w.And(*[w.And(l > -5, l < 5) for l in logs]))
        w.check(len(g) == max(0, min(n, lo + m) - lo), 'as many as asked for')
        for k, v in enumerate(g):
            want = sum([l * float(q) for l, q in zip(logs, basis[lo + k])])
            w.check(w.near(v, want, 1e-5), 'the cosine transform')


def flatness(w, n, frames_, scale_=1.):
    """the geometric mean over the mean: none exceeds one, and only noise
    reaches it"""
    S = w.z('spectral')
    scale = S.LinearScale(S.FrequencyBand(0, 1000), n)
    raw = w.array('x', (frames_, n), .5 * scale_, 10 * scale_)
    x = spectrum(w, raw, scale)
    out, = run(lambda s: S.SpectralFlatness(needs=s), [x])
    w.check(tuple(out.shape) == (frames_,), 'one for each frame')
    w.check(out.dimensions[0] == x.dimensions[0], 'the same frames')
    for t in range(frames_):
        r = [el(w, raw, t, j) for j in range(n)]
        gm = w.np.exp(sum([w.np.log(q) for q in r]) / n)
        w.check(w.near(el(w, out, t) * (sum(r) / n), gm, 1e-5 * scale_),
                'the geometric mean over the mean')


def shifted(w, n, axis, shape, band, shift):
    """the phase of coefficient k turns by k cycles per length"""
    S = w.z('spectral')
    sr = w.z('timeseries.SR11025')()
    f = w.ps(sr.frequency)
    scale = S.LinearScale(S.FrequencyBand(0, 1000 * n), n)
    raw = w.array('x', shape, -10, 10, dtype=complex)
    keep = raw.copy()
    TD, FD = w.z('timeseries.TimeDimension'), S.FrequencyDimension
    dims = [TD(w.td(F), w.td(F)) for _ in shape]
    dims[axis] = FD(scale)
    x = w.z('core.ArrayWithUnits')(raw, dims)
    kw = {}
    ks = range(n)
    if band:
        kw = dict(frequency_band=S.FrequencyBand(
            1000 * band[0] + 10, 1000 * band[1] - 10))
        ks = range(*band)
    t = w.choice('t', [0, f // 3, f - 1])
    out = S.functional.phase_shift(
        x, sr, w.td(shift * f + (t if shift > 0 else -t)), axis=axis, **kw)
    w.check(out.dimensions == x.dimensions and tuple(out.shape) == shape,
            'the same coefficients')
    w.check(w.equal(raw, keep), 'the input is not changed')
    for i in np.ndindex(*shape):
        k = i[axis]
        v, g = el(w, raw, *i), el(w, out, *i)
        a = -2 * math.pi * k * shift / n if k in ks else 0.
        c, s = math.cos(a), math.sin(a)
        w.check(w.And(w.near(g.real, v.real * c - v.imag * s, 1e-5),
                      w.near(g.imag, v.real * s + v.imag * c, 1e-5)),
                'turned by its share')
    w.check(w.raises(ValueError, lambda: S.functional.phase_shift(
        w.z('core.ArrayWithUnits')(raw, [TD(w.td(F), w.td(F))] * len(shape)),
        sr, w.td(f))), 'only frequencies have phases')


HARNESSES = [
    Harness('gathered', gathered, world_a,
            [(3, 1, 'any', 'scale'), (3, 2, 'any', 'function'),
             (3, 2, 'hanning', 'node'), (4, 1, 'any', 'node'),
             (3, 1, 'none', 'function'), (3, 2, 'identity', 'function'),
             (3, 1, 'number', 'node')],
            bounds='1 or 2 bands with any limits over 3 or 4 frequencies, any '
            'window; any coefficients'),
    Harness('bark', bark, world_a,
            [(32, 6, 5512, (2,), float), (24, 4, 11025, (1, 1), float),
             (16, 5, 8000, (1,), complex)],
            bounds='up to 6 bands of up to 32 frequencies'),
    Harness('auditory', auditory, world_a,
            [(k, lo, hi, n) for k in ('Bark', 'Mel') for lo, hi, n in
             [(50, 5512.5, 1), (20, 20000, 2), (100, 8000, 7),
              (20, 22050, 64), (3, 90, 5)]], bounds='up to 64 bands'),
    Harness('chroma', chroma, world_a,
            [(48, 220, 440, 1000), (64, 110, 900, 1500), (40, 440, 3000, 4000)],
            bounds='up to 3 octaves of up to 64 frequencies'),
    Harness('bfcc', bfcc, world_a,
            [(6, 3, 1, (2,)), (5, 2, 0, (1, 1)), (4, 8, 2, (1,)),
             (16, None, None, (1,)), (6, 2, 3, (1,))],
            bounds='up to 16 bands of up to 2 frames'),
    Harness('flatness', flatness, world_a, [(2, 2), (4, 1), (2, 1, 1e-7)],
            bounds='up to 4 frequencies'),
    Harness('shifted', shifted, world_a,
            [(4, -1, (4,), None, 1), (3, -1, (2, 3), None, 2),
             (4, 0, (4, 2), (1, 3), 1), (4, -1, (2, 4), (2, 4), 3),
             (4, -1, (4,), (0, 2), 5), (3, -1, (1, 3), None, -2)],
            bounds='up to 4 coefficients'),
]
ASSUMPTIONS = ['log and exp are arbitrary functions, numbers are exact']
