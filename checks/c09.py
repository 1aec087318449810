"""C09: what is stored is what is read back."""
import io
import numpy as np
from symz.harness import Harness, label_of
from symz import wire
from symz.worlds import world_b
from .common import SECOND

FAR = 2 * 10 ** 17
UNITS = {'ps': 1, 'us': 10 ** 6, 'ms': 10 ** 9, 's': SECOND}


def through(w, encoder, decoder, arrs):
    items = []
    for a in arrs:
        items.extend(encoder._process(a))
    if w.symbolic:
        return decoder(wire.File(items))
    return decoder(io.BytesIO(b''.join(
        x.encode() if isinstance(x, str) else x for x in items)))


def freq(w, name, lo=0, hi=10 ** 6):
    return w.real(name, lo, hi)


def make_scale(w, kind, tag=''):
    S = w.z('spectral')
    if kind in ('linear', 'even', 'mel', 'bark'):
        a, b = freq(w, 'lo' + tag), freq(w, 'hi' + tag)
        w.assume(b > a + 1)
        band = S.FrequencyBand(a, b)
        if kind == 'linear':
            return S.LinearScale(band, 3)
        if kind == 'even':
            return S.LinearScale(band, 4, always_even=True)
        return (S.MelScale if kind == 'mel' else S.BarkScale)(band, 3)
    if kind == 'geometric':
        return S.GeometricScale(
            20.123456789, 4000.987654321, w.real('ratio' + tag, .001, 1.9), 4)
    if kind == 'geometric even':
        return S.GeometricScale(
            20.123456789, 4000.987654321, 1 / 3., 4, always_even=True)
    if kind == 'chroma':
        return S.ChromaScale(S.FrequencyBand(50, 4000))
    n = 2
    bands = []
    for i in range(n):
        a, b = freq(w, 'lo%s%d' % (tag, i)), freq(w, 'hi%s%d' % (tag, i))
        w.assume(b > a)
        if bands:
            w.assume(w.And(a >= bands[-1].start_hz, b >= bands[-1].stop_hz))
        bands.append(S.FrequencyBand(a, b))
    return S.ExplicitScale(bands)


def same_band(w, a, b):
    return w.And(a.start_hz == b.start_hz, a.stop_hz == b.stop_hz)


def same_scale(w, a, b):
    w.check(type(a) is type(b), 'class of the scale')
    w.check(a.n_bands == b.n_bands and a.always_even == b.always_even,
            'number of bands')
    w.check(same_band(w, a.frequency_band, b.frequency_band),
            'range of the scale')
    if type(a).__name__ != 'ChromaScale':
        x, y = list(a), list(b)
        w.check(len(x) == len(y), 'number of bands')
        w.check(w.And(*[same_band(w, p, q) for p, q in zip(x, y)]), 'bands')


def make_dim(w, kind, size, tag):
    T, S = w.z('timeseries'), w.z('spectral')
    kind, _, arg = kind.partition(':')
    if kind == 'id':
        return w.z('core.IdentityDimension')()
    if kind == 'time':
        u1, _, u2 = (arg or 'ps').partition('/')
        u2 = u2 or u1
        f = w.int('f' + tag, 1, FAR // UNITS[u1])
        d = w.int('d' + tag, 1, FAR // UNITS[u2])
        return T.TimeDimension(w.td(f, u1), w.td(d, u2))
    if kind == 'freq':
        return S.FrequencyDimension(make_scale(w, arg, tag))
    stops = [1, 3] if arg == 'explicit' else [1, 2, 4]
    w.sym_hash()
    sl = [slice(a, b) for a, b in zip([0] + stops, stops)]
    return S.ExplicitFrequencyDimension(make_scale(w, arg, tag), sl)


SIZES = {'linear': 3, 'even': 4, 'mel': 3, 'bark': 3, 'geometric': 4,
         'geometric even': 4, 'chroma': 12, 'explicit': 2}


def size_of(kind, default):
    kind, _, arg = kind.partition(':')
    if kind == 'freq':
        return SIZES[arg]
    if kind == 'adaptive':
        return 3 if arg == 'explicit' else 4
    return default


def same_dims(w, got, dims, shape):
    w.check(len(got) == len(dims), 'number of dimensions')
    for a, b, n in zip(got, dims, shape):
        w.check(type(a) is type(b), 'class of the dimension')
        name = type(a).__name__
        if name == 'TimeDimension':
            w.check(w.And(w.ps(a.frequency) == w.ps(b.frequency),
                          w.ps(a.duration) == w.ps(b.duration)),
                    'frequency and duration')
            w.check(a.size == n, 'size of the time dimension')
        elif name != 'IdentityDimension':
            same_scale(w, a.scale, b.scale)
            if name == 'ExplicitFrequencyDimension':
                w.check([(s.start, s.stop) for s in a.slices] ==
                        [(s.start, s.stop) for s in b.slices],
                        'coefficients of each band')


def same_elements(w, got, parts, name='i'):
    """`got` holds the elements of the arrays in `parts`, one after another"""
    off = 0
    for j, p in enumerate(parts):
        n = p.shape[0]
        if w.concretely_bool(n > 0):
            i = w.int('%s%d' % (name, j), 0, n - 1)
            for k in np.ndindex(*[int(s) for s in p.shape[1:]]):
                w.check(got[(i + off,) + k] == p[(i,) + k], 'elements')
        off = off + n
    w.check(got.shape[0] == off and
            tuple(got.shape[1:]) == tuple(parts[0].shape[1:]), 'shape')


def array(w, kinds, chunks, dtype, view):
    """arrays with units, written in one or more chunks"""
    P = w.z('persistence.arraywithunits')
    A = w.z('core.ArrayWithUnits')
    trail = [size_of(k, 2) for k in kinds[1:]]
    lead = size_of(kinds[0], None)
    dims = [make_dim(w, k, None, str(i)) for i, k in enumerate(kinds)]
    arrs, off = [], 0
    for c in range(chunks):
        n = lead if lead is not None else w.int('n%d' % c, 0, 2000)
        raw = w.labels([n] + trail, dtype)
        if c and not view:
            raw = raw + 5000.0
        a = A(raw, dims)
        if view:
            # not contiguous in memory
            a = a[::2]
        arrs.append(a)
    got = through(w, P.ArrayWithUnitsEncoder(), P.ArrayWithUnitsDecoder(), arrs)
    w.check(type(got) is A, 'class')
    w.check(got.dtype == np.dtype(dtype), 'type of elements')
    same_elements(w, got, arrs)
    same_dims(w, got.dimensions, arrs[0].dimensions, got.shape)


def audio(w, rate, channels, chunks):
    T = w.z('timeseries')
    sr = getattr(T, rate)()
    shape = lambda c: [w.int('n%d' % c, 0, 3000)] + (
        [channels] if channels > 1 else [])
    arrs = [T.AudioSamples(w.labels(shape(c), 'float32'), sr)
            for c in range(chunks)]
    P = w.z('persistence')
    got = through(w, w.z('persistence.arraywithunits.ArrayWithUnitsEncoder')(),
                  w.z('persistence.audiosamples.AudioSamplesDecoder')(), arrs)
    w.check(type(got) is T.AudioSamples, 'class')
    w.check(type(got.samplerate) is type(sr), 'sample rate')
    w.check(got.channels == channels, 'channels')
    same_elements(w, got, arrs)
    same_dims(w, got.dimensions, arrs[0].dimensions, got.shape)


def adaptive(w, scale):
    """frequency-adaptive arrays"""
    T, S = w.z('timeseries'), w.z('spectral')
    n = w.int('n', 1, 1000)
    f, d = w.int('f', 1, FAR), w.int('d', 1, FAR)
    td = T.TimeDimension(w.td(f), w.td(d))
    if scale == 'linear':
        sc = S.LinearScale(S.FrequencyBand(0, 3000), 3)
    elif scale == 'geometric':
        sc = S.GeometricScale(100, 3000, 0.05, 3)
    else:
        sc = S.ExplicitScale([S.FrequencyBand(0, 100), S.FrequencyBand(50, 400),
                              S.FrequencyBand(400, 1000)])
    arrs = [w.labels((n, k)) + 1000.0 * k for k in (2, 1, 3)]
    fa = S.FrequencyAdaptive(arrs, td, sc)
    got = through(w, w.z('persistence.arraywithunits.ArrayWithUnitsEncoder')(),
                  w.z('persistence.frequencyadaptive.FrequencyAdaptiveDecoder')(),
                  [fa])
    w.check(type(got) is S.FrequencyAdaptive, 'class')
    same_dims(w, got.dimensions, fa.dimensions, got.shape)
    i = w.int('i', 0, n - 1)
    col = 0
    for k, a in zip((2, 1, 3), arrs):
        for j in range(k):
            w.check(got[i, col] == a[i, j], 'coefficients')
            col += 1
    w.check(tuple(got.shape) == (n, 6) if not w.symbolic else
            w.And(got.shape[0] == n, got.shape[1] == 6), 'shape')


def time_slice(w, u1, u2, opened):
    """time slices, as they are kept by an index"""
    TS = w.z('timeseries.TimeSlice')
    s = w.int('s', -FAR // UNITS[u1], FAR // UNITS[u1])
    d = w.int('d', 0, FAR // UNITS[u2])
    if opened:
        ts = TS(start=w.td(s, u1))
    else:
        ts = TS(duration=w.td(d, u2), start=w.td(s, u1))
    if w.symbolic:
        json = wire.overrides()['json']
    else:
        import json
    e = w.z('persistence.TimeSliceEncoder')().dict(ts)
    back = TS(**w.z('persistence.TimeSliceDecoder')().kwargs(
        json.loads(json.dumps(dict(e, _id='x')))))
    w.check(w.ps(back.start) == s * UNITS[u1], 'start')
    if opened:
        w.check(back.duration is None, 'open ended')
    else:
        w.check(w.ps(back.duration) == d * UNITS[u2], 'duration')
        w.check(back == ts, 'equal')


def features(w):
    """the features use these encoders"""
    P = w.z('persistence')
    F = w.z('persistence.arraywithunits')
    N = w.z('timeseries.VariableRateTimeSeries')
    store = w.concretely_bool(w.bool('store'))
    for cls, enc, dec in (
            (P.ArrayWithUnitsFeature, F.ArrayWithUnitsEncoder,
             F.ArrayWithUnitsDecoder),
            (P.PackedArrayWithUnitsFeature, F.PackedArrayWithUnitsEncoder,
             F.ArrayWithUnitsDecoder),
            (P.AudioSamplesFeature, F.ArrayWithUnitsEncoder,
             w.z('persistence.audiosamples.AudioSamplesDecoder')),
            (P.FrequencyAdaptiveFeature, F.ArrayWithUnitsEncoder,
             w.z('persistence.frequencyadaptive.FrequencyAdaptiveDecoder'))):
        f = cls(N, store=store, key='k')
        w.check(f.encoder is enc and type(f.decoder) is dec and
                f.key == 'k' and f.store == store,
                'feature')
    for name in ('persistence.ArrayWithUnitsFeature',
                 'persistence.PackedArrayWithUnitsFeature',
                 'persistence.AudioSamplesFeature',
                 'persistence.FrequencyAdaptiveFeature',
                 'timeseries.variablerate.VariableRateTimeSeriesFeature',
                 'segment.TimeSliceFeature', 'soundfile.OggVorbisFeature'):
        f = w.z(name)(N, store=store, key='k')
        w.check(f.key == 'k' and f.store == store, 'as told')
        w.check(not w.z(name)(N).store, 'stored when told to')


T2 = 'time:ps/us'
HARNESSES = [
    Harness('array', array, world_b, [
        (('id',), 1, 'float64', False), (('id',), 2, 'float32', False),
        (('time',), 1, 'float64', False), (('time:s/ps',), 2, 'float64', False),
        (('time:us/ms',), 1, 'int64', True),
        (('time', 'time:ms'), 2, 'float64', False),
        (('id', T2), 1, 'float32', False), ((T2, 'id', 'id'), 1, 'float64', False),
        (('time', 'freq:linear'), 2, 'float64', False),
        (('time', 'freq:even'), 1, 'float64', False),
        (('time', 'freq:explicit'), 1, 'float64', False),
        (('freq:explicit', T2), 1, 'float64', False),
        (('time', 'freq:mel'), 1, 'float64', False),
        (('time', 'freq:bark'), 1, 'float64', False),
        (('time', 'freq:geometric'), 1, 'float32', False),
        (('time', 'freq:geometric even'), 1, 'float32', False),
        (('time', 'freq:chroma'), 1, 'float64', False),
        (('time', 'time:s', 'freq:linear'), 1, 'float64', True),
        (('time', 'adaptive:explicit'), 1, 'float64', False),
        (('time', 'adaptive:linear'), 2, 'float64', False),
    ], bounds='up to 2 chunks of up to 2000 rows; 1 to 3 axes; scales of up to '
              '4 bands with any edges up to 1 MHz (bark and mel scales: any '
              'limits; geometric scales: one)'),
    Harness('audio', audio, world_b,
            [(r, c, k) for r, c, k in (
                ('SR96000', 1, 1), ('SR48000', 2, 1), ('SR44100', 1, 2),
                ('SR22050', 2, 2), ('SR16000', 1, 1), ('SR11025', 3, 1))],
            bounds='up to 3000 samples per chunk'),
    Harness('adaptive', adaptive, world_b,
            [('linear',), ('geometric',), ('explicit',)],
            bounds='three bands, up to 1000 rows'),
    Harness('time_slice', time_slice, world_b,
            [('ps', 'ps', False), ('s', 'ms', False), ('us', 'ps', True),
             ('ms', 's', True)], bounds='moments up to 55 hours away'),
    Harness('features', features, world_b),
]
ASSUMPTIONS = ['json, base64 and the bytes of numpy arrays hold what is put '
               'into them (they are stand-ins in the symbolic run and real in '
               'the replay)', 'int64 time arithmetic does not overflow']
