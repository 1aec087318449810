"""C20: transforms are what they say, and synthesizers undo them."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a, world_b
from .c14 import el
from .common import SECOND

RATES = ('SR11025', 'SR16000', 'SR22050', 'SR44100', 'SR48000', 'SR96000')


def period(w, rate):
    return int(w.ps(w.z('timeseries.' + rate)().frequency))


def framed(w, x, rate, hop):
    """frames of as many samples as there are in a row, hop samples apart"""
    T, f = w.z('timeseries.TimeDimension'), period(w, rate)
    d = [T(w.td(f * hop), w.td(f * x.shape[-1]))]
    if x.ndim == 2:
        d.append(T(w.td(f), w.td(f)))
    return w.z('core.ArrayWithUnits')(x, d)


def node(cls, data, *a, **k):
    """what a node makes of one chunk"""
    out = list(cls(*a, **k)._process(data))
    assert len(out) == 1
    return out[0]


def lapped(w, frames, hop, n):
    """the sum of all frames that cover a sample"""
    K, W = len(frames), len(frames[0])
    return [sum(frames[k][i - k * hop] for k in range(K)
                if 0 <= i - k * hop < W) for i in range(n)]


def cells(w, x):
    return [[el(w, x, i, j) for j in range(x.shape[1])]
            for i in range(x.shape[0])]


def close(w, got, want, label, tol=1e-6):
    w.check(len(got) == len(want), label + ': how many')
    w.check(w.And(*[w.near(a, b, tol) for a, b in zip(got, want)]), label)


def audio(w, a, rate, n, want=None, label='', tol=1e-6):
    w.check(isinstance(a, w.z('timeseries.AudioSamples')), 'audio')
    w.check(a.ndim == 1 and a.shape[0] == n, 'up to the end of the last frame')
    w.check(type(a.samplerate).__name__ == rate, 'the sample rate')
    w.check(w.ps(a.dimensions[0].frequency) == period(w, rate),
            'the sample rate')
    if want is not None:
        close(w, [el(w, a, i) for i in range(n)], want, label, tol)


# oracles: the definitions, as tables of numbers

def times(w, table, row):
    return [sum(float(c) * v for c, v in zip(t, row)) for t in table]


def dct2(n):
    k, t = np.arange(n)[:, None], np.arange(n)[None]
    m = np.sqrt(2. / n) * np.cos(np.pi / n * (t + .5) * k)
    m[0] *= np.sqrt(.5)
    return m


def dct4(n):
    k, t = np.arange(n)[:, None], np.arange(n)[None]
    return np.sqrt(2. / n) * np.cos(np.pi / n * (t + .5) * (k + .5))


def mdct(n):
    k, t = np.arange(n)[:, None], np.arange(2 * n)[None]
    return np.sqrt(2. / n) * np.cos(
        np.pi / n * (t + .5 + n / 2.) * (k + .5))


def dft(n, padded):
    k, t = np.arange(padded // 2 + 1)[:, None], np.arange(n)[None]
    e = np.exp(-2j * np.pi * k * t / padded) / np.sqrt(padded)
    return e.real, e.imag


def vorbis(n):
    t = np.arange(n)
    f = np.sin(.5 * np.pi * np.sin((t + .5) / n * np.pi) ** 2)
    return f / f.max()


def overlap(w, rate, W, H, K):
    x = w.array('x', (K, W), -1, 1)
    out = w.z('synthesize.WindowedAudioSynthesizer')().synthesize(
        framed(w, x, rate, H))
    n = (K - 1) * H + W
    audio(w, out, rate, n, lapped(w, cells(w, x), H, n), 'frames add up')


def rounded(w, rate, W, H, K, unit):
    """times given in nano- or microseconds match samples but approximately"""
    x = w.array('x', (K, W), -1, 1)
    T, f = w.z('timeseries.TimeDimension'), period(w, rate)
    up = w.pick('up', 2)
    hop, size = [(v * f // unit + up) * unit for v in (H, W)]
    frames = w.z('core.ArrayWithUnits')(x, [
        T(w.td(hop), w.td(size)), w.z('core.IdentityDimension')()])
    out = w.z('synthesize.WindowedAudioSynthesizer')().synthesize(frames)
    n = (K - 1) * H + W
    audio(w, out, rate, n, lapped(w, cells(w, x), H, n), 'frames add up')


def spectrum(w, out, x, rate, n):
    """units of a transformed series of frames"""
    w.check(isinstance(out, w.z('core.ArrayWithUnits')), 'units')
    w.check(tuple(out.shape) == (x.shape[0], n), 'one spectrum for each frame')
    a, b = out.dimensions[0], x.dimensions[0]
    w.check(w.And(w.ps(a.frequency) == w.ps(b.frequency),
                  w.ps(a.duration) == w.ps(b.duration)),
            'the time dimension of the frames')
    scale = out.dimensions[1].scale
    nyquist = w.z('timeseries.' + rate)().nyquist
    w.check(len(list(scale)) == n, 'one band for each coefficient')
    w.check(w.And(w.near(scale.start_hz, 0),
                  w.near(scale.stop_hz, nyquist, 1e-3)),
            'from zero to half of the sample rate')


def cosine(w, kind, rate, W, H, K):
    """type II and IV: the definition, and back"""
    raw = w.array('x', (K, W), -1, 1)
    keep = raw.copy()
    x = framed(w, raw, rate, H)
    c = node(w.z('spectral.' + kind), x)
    spectrum(w, c, x, rate, W)
    table = dct2(W) if kind == 'DCT' else dct4(W)
    for a, b in zip(cells(w, c), cells(w, raw)):
        close(w, a, times(w, table, b), 'the cosine transform', 1e-5)
    out = w.z('synthesize.%sSynthesizer' % kind)().synthesize(c)
    n = (K - 1) * H + W
    audio(w, out, rate, n, lapped(w, cells(w, raw), H, n),
          'the audio of the frames', 1e-5)
    w.check(w.equal(raw, keep), 'input data is not changed')
    win = np.linspace(.25, 1, W)
    S = w.z('spectral')
    out = w.z('synthesize.%sSynthesizer' % kind)(
        windowing_func=S.WindowingFunc(lambda size: np.linspace(.25, 1, size))
    ).synthesize(c)
    audio(w, out, rate, n, lapped(
        w, [[v * float(q) for v, q in zip(r, win)] for r in cells(w, raw)],
        H, n), 'windows are applied before adding up', 1e-5)


def modified(w, rate, N, K):
    """lapped by half, with a window that is applied on both sides: aliasing
    cancels out"""
    n = (K + 1) * N
    sig = w.array('x', (n,), -1, 1)
    win = vorbis(2 * N)
    rows = [[el(w, sig, k * N + i) * float(win[i]) for i in range(2 * N)]
            for k in range(K)]
    raw = w.np.zeros((K, 2 * N))
    for k in range(K):
        raw[k] = sig[k * N: k * N + 2 * N] * win
    x = framed(w, raw, rate, N)
    c = node(w.z('spectral.MDCT'), x)
    spectrum(w, c, x, rate, N)
    for a, b in zip(cells(w, c), rows):
        close(w, a, times(w, mdct(N), b), 'the cosine transform', 1e-5)
    out = w.z('synthesize.MDCTSynthesizer')().synthesize(c)
    audio(w, out, rate, n)
    # Princen-Bradley: the squares of both halves add up to a constant
    gain = float(win[0] ** 2 + win[N] ** 2)
    close(w, [el(w, out, i) for i in range(N, K * N)],
          [el(w, sig, i) * gain for i in range(N, K * N)],
          'the audio where two frames overlap', 1e-5)


def parts(w, v):
    return v.real, v.imag


def fourier(w, rate, shape, axis, padding):
    raw = w.array('x', shape, -1, 1)
    keep = raw.copy()
    T, I = w.z('timeseries.TimeDimension'), w.z('core.IdentityDimension')
    f = period(w, rate)
    axis_ = axis % len(shape)
    dims = [T(w.td(f), w.td(f)) if k == axis_ else I()
            for k in range(len(shape))]
    x = w.z('core.ArrayWithUnits')(raw, dims)
    out = node(w.z('spectral.FFT'), x, axis=axis, padding_samples=padding)
    m = shape[axis_] + padding
    want = list(shape)
    want[axis_] = m // 2 + 1
    w.check(isinstance(out, w.z('core.ArrayWithUnits')), 'units')
    w.check(tuple(out.shape) == tuple(want), 'size of the spectrum')
    w.check(len(out.dimensions) == len(shape), 'one dimension for each axis')
    for k, d in enumerate(out.dimensions):
        if k != axis_:
            w.check(isinstance(d, I), 'other dimensions are kept')
            continue
        w.check(isinstance(d, w.z('spectral.FrequencyDimension')),
                'frequencies')
        w.check(len(list(d.scale)) == m // 2 + 1, 'one band for each')
        w.check(w.near(d.scale.stop_hz,
                       w.z('timeseries.' + rate)().nyquist, 1e-3),
                'up to half of the sample rate')
    re, im = dft(shape[axis_], m)
    other = [n for k, n in enumerate(shape) if k != axis_]
    for at in np.ndindex(*other):
        def line(a, n):
            at_ = list(at)
            return [el(w, a, *(at_[:axis_] + [i] + at_[axis_:]))
                    for i in range(n)]
        src, got = line(raw, shape[axis_]), line(out, m // 2 + 1)
        close(w, [v.real for v in got], times(w, re, src),
              'the fourier transform', 1e-5)
        close(w, [v.imag for v in got], times(w, im, src),
              'the fourier transform', 1e-5)
    w.check(w.equal(raw, keep), 'input data is not changed')


def unfourier(w, rate, W, H, K):
    """frames come back, multiplied by the window of the synthesizer"""
    raw = w.array('x', (K, W), -1, 1)
    x = framed(w, raw, rate, H)
    c = node(w.z('spectral.FFT'), x)
    spectrum(w, c, x, rate, W // 2 + 1)
    out = w.z('synthesize.FFTSynthesizer')().synthesize(c)
    n, win = (K - 1) * H + W, vorbis(W)
    audio(w, out, rate, n, lapped(
        w, [[v * float(q) for v, q in zip(r, win)] for r in cells(w, raw)],
        H, n), 'the windowed frames', 1e-5)


def short_time(w, rate, W, H, n, batch, windowed):
    """frame, multiply by the window, transform"""
    S = w.z('spectral')
    f = period(w, rate)
    T, I = w.z('timeseries.TimeDimension'), w.z('core.IdentityDimension')
    td = T(w.td(f), w.td(f))
    if batch:
        raw = w.array('x', (batch, n), -1, 1)
        x = w.z('core.ArrayWithUnits')(raw, [I(), td])
        signals = cells(w, raw)
    else:
        raw = w.array('x', (n,), -1, 1)
        x = w.z('core.ArrayWithUnits')(raw, [td])
        signals = [[el(w, raw, i) for i in range(n)]]
    scheme = w.z('timeseries.SampleRate')(w.td(f * H), w.td(f * W))
    kw = {}
    win = np.hanning(W)
    if windowed == 'none':
        kw, win = dict(window=None), np.ones(W)
    elif windowed == 'vorbis':
        kw, win = dict(window=S.OggVorbisWindowingFunc()), vorbis(W)
    out = w.z('spectral.functional.stft')(x, scheme, **kw)
    if batch:
        K = (n - W) // H + 1
    else:
        K = out.shape[0]
        w.check((K - 1) * H < n <= (K - 1) * H + W, 'as far as it lasts')
    w.check(tuple(out.shape) == ((batch,) if batch else ()) + (
        K, W // 2 + 1), 'one spectrum for each window')
    d = out.dimensions[-2]
    w.check(w.And(w.ps(d.frequency) == f * H, w.ps(d.duration) == f * W),
            'when the windows are')
    w.check(len(list(out.dimensions[-1].scale)) == W // 2 + 1, 'frequencies')
    re, im = dft(W, W)
    for b, s in enumerate(signals):
        for k in range(K):
            src = [s[k * H + i] * float(win[i]) if k * H + i < n else 0
                   for i in range(W)]
            got = [el(w, out, *(((b,) if batch else ()) + (k, j)))
                   for j in range(W // 2 + 1)]
            close(w, [v.real for v in got], times(w, re, src),
                  'spectrum of a window', 1e-5)
            close(w, [v.imag for v in got], times(w, im, src),
                  'spectrum of a window', 1e-5)


def rate_of(w, kind, rate):
    """the rate is recognised whatever the size of the frames"""
    T = w.z('timeseries.TimeDimension')
    n, f = w.int('n', 2, 10 ** 5), period(w, rate)
    hop = w.int('hop', 1, 10 ** 5)
    mod = w.z('spectral.spectral')
    data = w.z('core.ArrayWithUnits')(
        w.labels((2, n)), [T(w.td(hop * f), w.td(n * f)),
                           T(w.td(f), w.td(f))])
    seen = []

    class Recorded(Exception):
        pass

    real = mod.audio_sample_rate

    def recorded(v):
        seen.append(real(v))
        raise Recorded()
    cls = w.z('spectral.' + kind)
    old = mod.dct, mod.mdct, cls.__dict__.get('_process_raw')
    try:
        mod.audio_sample_rate = recorded
        mod.dct = lambda d, **k: d
        mod.mdct = lambda d, **k: d
        if old[2]:
            cls._process_raw = lambda self, d: d
        w.check(w.raises(Recorded, lambda: node(cls, data)), 'a known rate')
    finally:
        mod.audio_sample_rate = real
        mod.dct, mod.mdct = old[:2]
        if old[2]:
            cls._process_raw = old[2]
    w.check(len(seen) == 1 and type(seen[0]).__name__ == rate,
            'the rate of the samples')


def bands_of(w, n, cut, rate):
    """bands of neighbouring coefficients that do not overlap"""
    S = w.z('spectral')
    hz = w.z('timeseries.' + rate)().nyquist / float(n)
    edges = [0] + list(cut) + [n]
    return S.ExplicitScale([
        S.FrequencyBand(a * hz + hz * .25, b * hz - hz * .25)
        for a, b in zip(edges[:-1], edges[1:])])


def adaptive(w, kind, rate, W, H, K, cut):
    """transform, band-wise inverse, band-wise transform, inverse"""
    import scipy.fftpack
    raw = w.array('x', (K, W), -1, 1)
    x = framed(w, raw, rate, H)
    S, Y = w.z('spectral'), w.z('synthesize')
    sr = w.z('timeseries.' + rate)()
    if kind == 'dct':
        c = node(S.DCT, x, scale_always_even=True)
        inverse, synth = mod_attr(w, 'idct'), Y.FrequencyAdaptiveDCTSynthesizer
        n = W
    else:
        c = node(S.FFT, x)
        inverse, synth = w.np.fft.irfft, Y.FrequencyAdaptiveFFTSynthesizer
        n = W // 2 + 1
    scale = bands_of(w, n, cut, rate)
    fa = node(S.FrequencyAdaptiveTransform, c, transform=inverse, scale=scale)
    w.check(isinstance(fa, S.FrequencyAdaptive), 'frequency adaptive')
    w.check(fa.shape[0] == K and fa.n_bands == len(cut) + 1, 'all bands')
    out = synth(scale, sr).synthesize(fa)
    m, win = (K - 1) * H + W, np.ones(W)
    frames = cells(w, raw)
    if kind == 'fft':
        win = vorbis(W)
        frames = [without_edges(w, r, (0,) + cut + (n,)) for r in frames]
    audio(w, out, rate, m, lapped(
        w, [[v * float(q) for v, q in zip(r, win)] for r in frames],
        H, m), 'the audio of the frames', 1e-5)


def overlapping(w, kind, rate, W, H, K, bands):
    """coefficients of bands which overlap add up"""
    raw = w.array('x', (K, W), -1, 1)
    x = framed(w, raw, rate, H)
    S, Y = w.z('spectral'), w.z('synthesize')
    sr = w.z('timeseries.' + rate)()
    if kind == 'dct':
        c = node(S.DCT, x, scale_always_even=True)
        inverse, synth = mod_attr(w, 'idct'), Y.FrequencyAdaptiveDCTSynthesizer
        n = W
    else:
        c = node(S.FFT, x)
        inverse, synth = w.np.fft.irfft, Y.FrequencyAdaptiveFFTSynthesizer
        n = W // 2 + 1
    hz = sr.nyquist / float(n)
    bands = [S.FrequencyBand(a * hz + hz * .25, b * hz - hz * .25)
             for a, b in bands]

    def through(bands):
        scale = S.ExplicitScale(bands)
        fa = node(S.FrequencyAdaptiveTransform, c, transform=inverse,
                  scale=scale)
        w.check(fa.n_bands == len(bands), 'all bands')
        out = synth(scale, sr).synthesize(fa)
        audio(w, out, rate, (K - 1) * H + W)
        return flat(w, out)
    each = [through([b]) for b in bands]
    close(w, through(bands), [sum(v) for v in zip(*each)],
          'the sum of all bands', 1e-5)


def flat(w, a):
    return [el(w, a, i) for i in range(a.shape[0])]


def without_edges(w, row, edges):
    """a real series has real coefficients at both ends, which is all that is
    kept of those of a band"""
    W, n = len(row), edges[-1]
    re, im = dft(W, W)
    re, im = times(w, re, row), times(w, im, row)
    for a, b in zip(edges[:-1], edges[1:]):
        im[a] = im[b - 1] = 0
    eye = np.eye(n)
    back = np.fft.irfft(eye, W, norm='ortho').T
    back_i = np.fft.irfft(eye * 1j, W, norm='ortho').T
    return [a + b for a, b in zip(times(w, back, re), times(w, back_i, im))]


def mod_attr(w, name):
    return getattr(w.z('synthesize.synthesize'), name)


def windows(w, n, dtype, side):
    """a window is multiplied with every row"""
    S = w.z('spectral')
    x = w.array('x', (2, n), -100, 100, dtype=dtype)
    win = np.linspace(0, 1, n)
    f = S.WindowingFunc(lambda size: np.linspace(0, 1, size))
    out = f * x if side == 'left' else x * f
    w.check(tuple(out.shape) == (2, n), 'size')
    for a, b in zip(cells(w, out), cells(w, x)):
        close(w, a, [v * float(q) for v, q in zip(b, win)], 'windowed')
    same = S.IdentityWindowingFunc() * x
    w.check(w.equal(same, x), 'the identity window')
    for g, want in ((S.OggVorbisWindowingFunc(), vorbis(n)),
                    (S.HanningWindowingFunc(), np.hanning(n))):
        for a, b in zip(cells(w, g * x), cells(w, x)):
            close(w, a, [v * float(q) for v, q in zip(b, want)], 'windowed')


def decomposed(w, rate, K, n, sizes, flat, drop):
    """coarse versions and what they miss; together the signal"""
    import scipy.signal
    raw = w.array('x', (n,) if flat else (K, n), -1, 1)
    keep = raw.copy()
    T, f = w.z('timeseries.TimeDimension'), period(w, rate)
    td = T(w.td(f), w.td(f))
    hop = T(w.td(f * n), w.td(f * n))
    x = w.z('core.ArrayWithUnits')(raw, [td] if flat else [hop, td])
    rows = [[el(w, raw, i) for i in range(n)]] if flat else cells(w, raw)
    fa = w.z('spectral.functional.frequency_decomposition')(x, sizes)
    w.check(isinstance(fa, w.z('spectral.FrequencyAdaptive')), 'bands')
    w.check(tuple(fa.shape) == (len(rows), sum(sizes)), 'size')
    w.check(w.And(w.ps(fa.dimensions[0].duration) == f * n,
                  w.ps(fa.dimensions[0].frequency) == f * n), 'when')
    nyquist = w.z('timeseries.' + rate)().nyquist
    edges = [0] + [nyquist * (s / float(n)) for s in sorted(sizes)]
    for b, lo, hi in zip(fa.scale, edges[:-1], edges[1:]):
        w.check(w.And(w.near(b.start_hz, lo), w.near(b.stop_hz, hi)),
                'the bands')

    def table(a, b):
        return np.eye(a) if a == b else scipy.signal.resample(
            np.eye(a), b, axis=-1).T
    total = [[0] * n for _ in rows]
    left = rows
    some = [[0] * n for _ in rows]
    for k, (size, band) in enumerate(zip(sorted(sizes), fa.scale)):
        part = [times(w, table(n, size), r) for r in left]
        at = sum(sorted(sizes)[:k])
        for i, r in enumerate(part):
            close(w, [el(w, fa, i, at + j) for j in range(size)], r,
                  'a band')
        up = [times(w, table(size, n), r) for r in part]
        left = [[a - b for a, b in zip(p, q)] for p, q in zip(left, up)]
        if k != drop:
            some = [[a + b for a, b in zip(p, q)] for p, q in zip(some, up)]
    synth = w.z('synthesize.FrequencyDecompositionSynthesizer')(
        w.z('timeseries.' + rate)(), n)
    out = synth.synthesize(fa)
    w.check(tuple(out.shape) == (len(rows), n), 'size')
    w.check(w.ps(out.dimensions[1].frequency) == f, 'the sample rate')
    for i, r in enumerate(rows):
        close(w, [el(w, out, i, j) for j in range(n)],
              [a - b for a, b in zip(r, left[i])],
              'the bands add up to the signal')
        if n in sizes:
            close(w, left[i], [0] * n, 'nothing is left')
    out = synth.synthesize(fa, bands=[k for k in range(len(sizes))
                                      if k != drop])
    for i, r in enumerate(some):
        close(w, [el(w, out, i, j) for j in range(n)], r, 'some bands')
    w.check(w.equal(raw, keep), 'input data is not changed')


def squared(w, K, widths, n, hop, dur):
    """all bands at the same time resolution"""
    import scipy.signal
    S, T = w.z('spectral'), w.z('timeseries.TimeDimension')
    arrs = [w.array('x%d' % k, (K, m), .25, 1) for k, m in enumerate(widths)]
    scale = S.GeometricScale(100, 4000, .1, len(widths))
    u = 10 ** 9
    time = T(w.td(hop * u), w.td(dur * u))
    fa = S.FrequencyAdaptive(arrs, time, scale)
    q = fa.rasterize(n)
    w.check(tuple(q.shape) == (K, n, len(widths)), 'size')
    w.check(w.And(w.ps(q.dimensions[0].frequency) == hop * u,
                  w.ps(q.dimensions[0].duration) == dur * u),
            'the time dimension of the frames')
    part = q.dimensions[1]
    w.check(w.And(w.near(w.ps(part.frequency) * n, dur * u, n),
                  w.ps(part.duration) == w.ps(part.frequency)),
            'parts of a frame')
    w.check(len(list(q.dimensions[2].scale)) == len(widths), 'the bands')
    for b, m in enumerate(widths):
        t = np.eye(n) if n == m else scipy.signal.resample(
            np.eye(m), n, axis=-1).T
        for k in range(K):
            src = [el(w, arrs[b], k, j) for j in range(m)]
            got = [el(w, q, k, j, b) for j in range(n)]
            res = times(w, t, src)
            top, peak = src[0], res[0]
            for v in src[1:]:
                top = w.ite(v > top, v, top)
            for v in res[1:]:
                peak = w.ite(v > peak, v, peak)
            # got = res * top / peak
            close(w, [g * peak for g in got], [v * top for v in res],
                  'resampled, with the same maximum', 1e-5)
    out = fa.square(n, do_overlap_add=True)
    step = n * hop // dur
    size = (K - 1) * step + n
    w.check(tuple(out.shape) == (size, len(widths)), 'size when added up')
    w.check(w.ps(out.dimensions[0].frequency) == w.ps(part.frequency),
            'steps in time')
    for b in range(len(widths)):
        frames = [[el(w, q, k, j, b) for j in range(n)] for k in range(K)]
        close(w, [el(w, out, i, b) for i in range(size)],
              lapped(w, frames, step, size), 'frames are added up')


HARNESSES = [
    Harness('overlap', overlap, world_a,
            [(r, 4, 2, 3) for r in RATES] +
            [('SR22050', W, H, K) for W, H, K in (
                (1, 1, 3), (3, 1, 4), (4, 3, 3), (5, 2, 3), (2, 4, 2),
                (6, 6, 2), (4, 1, 1), (17, 5, 3))],
            bounds='1 to 4 frames of up to 17 samples'),
    Harness('rounded', rounded, world_a,
            [('SR22050', 17, 5, 3, 1000), ('SR44100', 4, 2, 2, 1000),
             ('SR11025', 8, 3, 3, 1000), ('SR48000', 6, 3, 4, 1000)],
            bounds='2 to 4 frames of up to 17 samples, times to the '
            'nanosecond'),
    Harness('cosine', cosine, world_a,
            [(k, r, W, H, K) for k in ('DCT', 'DCTIV') for r, W, H, K in (
                ('SR22050', 4, 2, 3), ('SR44100', 5, 2, 2),
                ('SR11025', 8, 4, 2), ('SR16000', 9, 4, 2),
                ('SR48000', 6, 3, 2), ('SR96000', 3, 1, 3))],
            bounds='2 or 3 frames of up to 9 samples'),
    Harness('modified', modified, world_a,
            [('SR22050', 2, 3), ('SR44100', 4, 2), ('SR11025', 3, 3),
             ('SR16000', 8, 2)],
            bounds='2 or 3 frames of up to 16 samples'),
    Harness('fourier', fourier, world_a,
            [('SR22050', s, a, p) for s, a, p in (
                ((2, 4), -1, 0), ((2, 5), -1, 0), ((2, 4), 1, 3),
                ((5,), -1, 0), ((5,), 0, 2), ((3, 2), 0, 0), ((3, 2), 0, 2),
                ((2, 2, 4), -1, 2), ((2, 3, 2), 1, 1), ((1, 8), -1, 8))],
            bounds='up to 3 axes of up to 8 samples, any axis, up to 8 zeros'),
    Harness('unfourier', unfourier, world_a,
            [('SR22050', 4, 2, 3), ('SR44100', 8, 4, 2), ('SR11025', 6, 2, 2),
             ('SR16000', 34, 17, 2)],
            bounds='2 or 3 frames of up to 34 samples'),
    Harness('short_time', short_time, world_a,
            [('SR22050', W, H, n, b, v) for W, H, n, b, v in (
                (4, 2, 8, 0, 'hann'), (4, 2, 9, 0, 'vorbis'),
                (4, 2, 9, 2, 'hann'), (4, 3, 7, 0, 'none'),
                (5, 2, 5, 2, 'none'), (4, 4, 8, 1, 'vorbis'))],
            bounds='up to 9 samples of 1 or 2 signals'),
    Harness('rate', rate_of, world_b,
            [(k, r) for k in ('DCT', 'DCTIV', 'MDCT') for r in RATES],
            bounds='frames of up to 10^5 samples'),
    Harness('adaptive', adaptive, world_a,
            [(k,) + c for k in ('dct', 'fft') for c in (
                ('SR22050', 8, 4, 2, (2,)), ('SR11025', 8, 8, 2, ()),
                ('SR44100', 12, 6, 1, (2, 4)))],
            bounds='up to 2 frames of up to 12 samples, 3 bands'),
    Harness('overlapping', overlapping, world_a,
            [(k,) + c for k in ('dct', 'fft') for c in (
                ('SR22050', 8, 4, 2, ((0, 3), (1, 4))),
                ('SR11025', 12, 12, 1, ((1, 4), (2, 6), (0, 3))))],
            bounds='up to 2 frames of up to 12 samples, 3 bands'),
    Harness('decomposed', decomposed, world_a,
            [('SR11025', 2, 8, (2, 8, 4), False, 1),
             ('SR22050', 1, 8, (4, 8), True, 0),
             ('SR44100', 1, 9, (3, 5), False, 0),
             ('SR16000', 2, 6, (6,), False, 5)],
            bounds='1 or 2 rows of up to 9 samples, up to 3 bands'),
    Harness('squared', squared, world_a,
            [(2, (2, 4), 4, 1, 2), (2, (4,), 4, 1, 4), (3, (1,), 4, 3, 4),
             (2, (2, 1), 2, 1, 1), (1, (2,), 4, 1, 2)],
            bounds='up to 3 frames, 2 bands of up to 4 coefficients'),
    Harness('windows', windows, world_a,
            [(n, d, s) for n in (1, 4, 5) for d in (float, np.int32)
             for s in ('left', 'right')],
            bounds='up to 5 samples'),
]
ASSUMPTIONS = []
