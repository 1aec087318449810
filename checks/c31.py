"""C31: ready-made graphs do what they are told, whatever the sound comes
from."""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a, world_b
from .c20 import RATES, period

CHAIN = {
    'resampled': [],
    'windowed': ['windowed'],
    'stft': ['windowed', 'fft'],
    'frequency_adaptive': ['long_windowed', 'long_fft', 'freq_adaptive'],
}
NEEDS = {
    'resampled': {'meta': [], 'raw': ['meta'], 'ogg': ['raw'], 'pcm': ['raw'],
                  'resampled': ['pcm']},
}
NEEDS['windowed'] = dict(NEEDS['resampled'], windowed=['resampled'])
NEEDS['stft'] = dict(NEEDS['windowed'], fft=['windowed'])
NEEDS['frequency_adaptive'] = dict(
    NEEDS['resampled'], long_windowed=['resampled'],
    long_fft=['long_windowed'], freq_adaptive=['long_fft'])
NEEDS['audio_graph'] = dict(
    NEEDS['stft'], dct=['windowed'], bark=['fft'], centroid=['bark'],
    chroma=['fft'], bfcc=['fft'])


def run(model, source, chunks, upto):
    """what each of the features is for these chunks of one of them"""
    from featureflow.extractor import Node, Graph

    class Source(Node):
        def _process(self, data):
            for c in data:
                yield c

    class Sink(Node):
        def __init__(self, out, needs=None):
            Node.__init__(self, needs=needs)
            self.out = out

        def _process(self, data):
            self.out.append(data)
            yield data

    g, out = Graph(), {}
    g[source] = Source()

    def build(key):
        if key not in g:
            f = model.features[key]
            needs = {k: build(v.key) for k, v in f.needs.items()}
            g[key] = f.extractor(needs=needs, **f.extractor_args)
        if key != source and key not in out:
            out[key] = []
            g[key + ' sink'] = Sink(out[key], needs=g[key])
        return g[key]
    for key in upto:
        build(key)
    g.process(**{source: chunks})
    return out


def flow(w, nodes, chunks):
    """the same, of nodes one after another"""
    from featureflow.extractor import Node, Graph

    class Source(Node):
        def _process(self, data):
            for c in data:
                yield c

    class Sink(Node):
        def _process(self, data):
            out.append(data)
            yield data
    out = []
    g = Graph(src=Source())
    at = g['src']
    for i, make in enumerate(nodes):
        at = make(at)
        g['n%d' % i] = at
    g['sink'] = Sink(needs=at)
    g.process(src=chunks)
    return out


def same(w, a, b, label):
    w.check(len(a) == len(b), label + ': chunks')
    for x, y in zip(a, b):
        w.check(type(x) is type(y), label + ': type')
        w.check(x.shape == y.shape, label + ': shape')
        w.check(w.near(x, y), label)
        w.check(len(x.dimensions) == len(y.dimensions) and
                all(type(p) is type(q) for p, q in
                    zip(x.dimensions, y.dimensions)), label + ': units')


def audio_chunks(w, rate, sizes):
    out = []
    for k, n in enumerate(sizes):
        out.append(w.z('timeseries.AudioSamples')(
            w.array('x%d' % k, (n,), -1, 1), w.z('timeseries.' + rate)()))
    return out


def chain(w, kind, rate, win, hop, sizes, pad=0):
    """features are those of windows of the scheme asked for"""
    S = w.z('spectral')
    f = period(w, rate)
    sr = w.z('timeseries.' + rate)()
    scheme = w.z('timeseries.SampleRate')(w.td(f * hop), w.td(f * win))
    B = w.z('basic')
    wfunc = S.OggVorbisWindowingFunc()
    if kind == 'windowed':
        wfunc = None if pad else S.WindowingFunc(
            lambda size: np.arange(size) * 2. + 1)
        model = B.windowed(scheme, resample_to=sr, wfunc=wfunc)
    elif kind == 'stft':
        model = B.stft(resample_to=sr, wscheme=scheme,
                       fft_padding_samples=pad)
    else:
        half = w.z('timeseries.' + rate)().nyquist / 2.
        scale = S.ExplicitScale([S.FrequencyBand(0, half * 1.01),
                                 S.FrequencyBand(half * .5, half * 1.5)])
        model = B.frequency_adaptive(scheme, scale, resample_to=sr)
    chunks = audio_chunks(w, rate, sizes)
    got = run(model, 'resampled', chunks, CHAIN[kind])
    nodes = [lambda n: S.SlidingWindow(scheme, wfunc=wfunc, needs=n)]
    if kind == 'stft':
        nodes.append(lambda n: S.FFT(padding_samples=pad, needs=n))
    elif kind == 'frequency_adaptive':
        nodes.append(lambda n: S.FFT(needs=n))
        nodes.append(lambda n: S.FrequencyAdaptiveTransform(
            transform=w.np.fft.irfft, scale=scale, window_func=np.hanning,
            needs=n))
    for k, key in enumerate(CHAIN[kind]):
        want = flow(w, nodes[:k + 1], chunks)
        w.check(want, 'there is something')
        same(w, got[key], want, key)


@contextlib.contextmanager
def resample_stub(w, log):
    """libsamplerate, which is asked for a rate and a number of channels"""
    mod = w.z('soundfile.resample')
    old = mod.Resample

    class Resample(object):
        def __init__(self, orig, new, nchannels=1, converter_type=1):
            log.append((orig, new, nchannels))

        def __call__(self, data, end_of_input=False):
            return np.zeros(len(data) // 2)
    mod.Resample = Resample
    try:
        yield
    finally:
        mod.Resample = old


def make(w, kind, rate, **k):
    sr = w.z('timeseries.' + rate)()
    scheme = sr.half_lapped()
    B = w.z('basic')
    S = w.z('spectral')
    if kind == 'windowed':
        return B.windowed(scheme, resample_to=sr, **k)
    if kind == 'frequency_adaptive':
        scale = S.LinearScale(S.FrequencyBand(0, sr.nyquist), 4)
        return B.frequency_adaptive(scheme, scale, resample_to=sr, **k)
    return getattr(B, kind)(resample_to=sr, **k)


STORES = {
    'resampled': {'store_resampled': ('resampled', False)},
    'windowed': {'store_resampled': ('resampled', True),
                 'store_windowed': ('windowed', False)},
    'stft': {'store_fft': ('fft', False),
             'store_windowed': ('windowed', False),
             'store_resampled': ('resampled', False)},
    'frequency_adaptive': {'store_freq_adaptive': ('freq_adaptive', False),
                           'store_resampled': ('resampled', False)},
    'audio_graph': {'store_fft': ('fft', False)},
}
ALWAYS = {'meta', 'ogg'}


def settings(w, kind, rate):
    """what is stored, how much is read at once, and at which rate"""
    given, want = {}, set(ALWAYS)
    for k, (feature, default) in STORES[kind].items():
        v = w.choice(k, (None, False, True))
        if v is not None:
            given[k] = v
        if default if v is None else v:
            want.add(feature)
    if kind == 'audio_graph':
        want |= {'dct', 'bark', 'centroid', 'chroma', 'bfcc'}
    size = w.int('chunk', 1, 8)
    C = w.z('soundfile.ChunkSizeBytes')

    class Size(C):
        def __int__(self):
            return int(size)
    sr = w.z('timeseries.' + rate)()
    model = make(w, kind, rate, chunksize_bytes=Size(sr, w.td(10 ** 12)),
                 **given)
    w.check({k for k, f in model.features.items() if f.store} == want,
            'stored is what was asked for')
    w.check({k: sorted(v.key for v in f.needs.values())
             for k, f in model.features.items()} == NEEDS[kind],
            'what each feature is computed from')
    # raw bytes
    got = run(model, 'meta', [io.BytesIO(bytes(range(20)))], ['raw'])['raw']
    w.check(b''.join(got) == bytes(range(20)), 'all bytes')
    w.check(w.And(*[len(c) == size for c in got[:-1]] or [True]),
            'chunks of the size asked for')
    w.check(w.And(len(got[-1]) <= size, size * (len(got) - 1) < 20),
            'and no longer than that')
    # the rate
    log = []
    for other in ('SR44100', 'SR11025'):
        o = w.z('timeseries.' + other)()
        with resample_stub(w, log):
            chunks = [w.z('timeseries.AudioSamples')(np.ones(4), o)] * 2
            out = run(model, 'pcm', [chunks[0], chunks[1]],
                      ['resampled'])['resampled']
        if other == rate:
            w.check(w.And(*[w.near(a, b) for a, b in zip(out, chunks)]),
                    'audio of this rate is kept')
        w.check(log[-1] == (o.samples_per_second, sr.samples_per_second, 1),
                'between these rates')
        w.check(len(out) == 2 and all(
            type(x.samplerate).__name__ == rate for x in out),
            'the sample rate asked for')


def applied(w, key, rate):
    """features of the audio graph are those of their names"""
    S = w.z('spectral')
    sr = w.z('timeseries.' + rate)()
    model = w.z('basic').audio_graph(resample_to=sr)
    band = S.FrequencyBand(20, sr.nyquist)
    f = period(w, rate)
    T = w.z('timeseries.TimeDimension')
    time = T(w.td(f * 8), w.td(f * 16))
    A = w.z('core.ArrayWithUnits')
    if key in ('dct', 'fft'):
        x = A(w.array('x', (2, 8), -1, 1), [time, T(w.td(f), w.td(f))])
    elif key == 'windowed':
        # too long to be symbolic
        x = w.z('timeseries.AudioSamples')(
            w.constant(np.sin(np.arange(5000.))), sr)
    elif key == 'centroid':
        scale = S.LinearScale(band, 4)
        x = A(w.array('x', (2, 4), .1, 1), [time, S.FrequencyDimension(scale)])
    else:
        scale = S.LinearScale(S.FrequencyBand(0, sr.nyquist), 257)
        raw = np.abs(np.sin(np.arange(257. * 2) ** 2)).reshape((2, 257))
        if key == 'bark':
            # one component of any loudness
            loud = w.array('loud', (2,), .5, 2)
            rows = [w.constant(raw[:, :100]), loud.reshape((2, 1)),
                    w.constant(raw[:, 101:])]
            raw = w.np.concatenate(rows, axis=1)
        else:
            raw = w.constant(raw)
        x = A(raw, [time, S.FrequencyDimension(scale)])
    n = {
        'windowed': lambda n: S.SlidingWindow(
            sr.half_lapped(), wfunc=S.OggVorbisWindowingFunc(), needs=n),
        'dct': lambda n: S.DCT(needs=n), 'fft': lambda n: S.FFT(needs=n),
        'bark': lambda n: S.BarkBands(frequency_band=band, needs=n),
        'chroma': lambda n: S.Chroma(frequency_band=band, needs=n),
        'bfcc': lambda n: S.BFCC(needs=n),
        'centroid': lambda n: S.SpectralCentroid(needs=n),
    }[key]
    if key == 'windowed':
        H = w.z('timeseries.HalfLapped')()
        n = lambda n: S.SlidingWindow(
            H, wfunc=S.OggVorbisWindowingFunc(), needs=n)
    source = NEEDS['audio_graph'][key][0]
    same(w, run(model, source, [x], [key])[key], flow(w, [n], [x]), key)


def onsets(w, chunked):
    """onsets of the stft of a model"""
    S = w.z('spectral')
    T = w.z('timeseries')
    H = T.HalfLapped()
    model = w.z('basic').stft(resample_to=T.SR11025())
    mixin = w.z('basic').with_onsets(model.fft)

    class Sound(mixin, model):
        pass
    needs = {k: sorted(v.key for v in Sound.features[k].needs.values())
             for k in ('onset_prep', 'complex_domain', 'sliding_detection',
                       'slices')}
    w.check(needs == {'onset_prep': ['fft'], 'complex_domain': ['onset_prep'],
                      'sliding_detection': ['complex_domain'],
                      'slices': ['sliding_detection']},
            'what each feature is computed from')
    w.check({k for k, f in Sound.features.items() if f.store} ==
            ALWAYS | {'slices'}, 'only onsets are stored')
    A, Id = w.z('core.ArrayWithUnits'), w.z('core.IdentityDimension')
    time = T.TimeDimension(*H)
    cut = (2, 3) if chunked else (5,)
    parts = [w.array('x%d' % k, (n, 2), -1, 1) for k, n in enumerate(cut)]
    frames = [A(p, [time, Id()]) for p in parts]
    got = run(Sound, 'fft', frames, ['onset_prep'])['onset_prep']
    want = flow(w, [lambda n: S.SlidingWindow(
        H * T.Stride(frequency=1, duration=3), needs=n)], frames)
    same(w, got, want, 'three frames at a time')
    w.check(all(g.shape[1] >= 3 for g in got), 'three frames at a time')
    series = [A(w.array('y%d' % k, (n,), -1, 1), [time])
              for k, n in enumerate((6, 8) if chunked else (14,))]
    got = run(Sound, 'complex_domain', series,
              ['sliding_detection'])['sliding_detection']
    want = flow(w, [lambda n: S.SlidingWindow(
        H * T.Stride(frequency=1, duration=11), padwith=5, needs=n)], series)
    same(w, got, want, 'around each frame')
    # the middle of its window is the frame itself
    flat = [v for s in series for v in
            (list(np.asarray(s)) if not w.symbolic else
             [s[i] for i in range(len(s))])]
    at = 0
    for g in got:
        w.check(g.shape[1] >= 11, 'eleven frames')
        for i in range(g.shape[0]):
            if 5 <= at < len(flat):
                w.check(g[i, 5] == flat[at], 'the frame is in the middle')
            at += 1
    w.check(at > 0, 'some frame')


def metadata(w, kind):
    """a sound may be named in many ways"""
    import requests
    A, M = w.z('soundfile.AudioMetaData'), w.z('soundfile.MetaData')
    E = w.z('soundfile.AudioMetaDataEncoder')
    json = __import__('json')
    mod = w.z('soundfile.audio_metadata')
    rate, channels = w.int('rate', 1, 10 ** 6), w.int('channels', 1, 8)
    old = mod.SoundFile
    opened = []

    class File(object):
        samplerate, channels = rate, None

        def __init__(self, f, *a, **k):
            opened.append(f)
    File.channels = channels
    mod.SoundFile = File
    d = tempfile.mkdtemp()
    try:
        local = os.path.join(d, 'x.wav')
        open(local, 'wb').close()
        url = {'host': 'HTTPS://Sounds.Example.COM:8080/A.wav',
               'number': 'http://127.0.0.1:8/', 'login': 'https://u:p@h/x?'}.get(
            kind, 'http://example.com/a%20b?c=d')
        if kind in ('host', 'number', 'login'):
            kind = 'url'
        data = {
            'url': lambda: url,
            'request': lambda: requests.Request(
                'GET', url, headers={'x': 'y'}),
            'range': lambda: requests.Request(
                'GET', url, headers={'range': 'bytes=5-'}),
            'file': lambda: local, 'bytes': lambda: io.BytesIO(b'abc'),
            'meta': lambda: A(uri=url, samplerate=rate, channels=channels,
                              licensing='l', description='e', tags='t',
                              more='m'),
            'other': lambda: os.path.join(d, 'missing'),
        }[kind]()
        out = list(M()._process(data))
        w.check(len(out) == 1, 'one')
        a = out[0]
        w.check(isinstance(a, A), 'metadata')
        if kind == 'url':
            w.check(isinstance(a.uri, requests.Request), 'a request')
            w.check(a.uri.url == url and a.request is a.uri, 'the address')
            w.check({k.lower(): v for k, v in a.uri.headers.items()} ==
                    {'range': 'bytes=0-'}, 'all of it')
            w.check(a.uri.method == 'GET', 'to be read')
        elif kind in ('request', 'range'):
            w.check(a.uri is data and a.request is data, 'the request')
            h = {k.lower(): v for k, v in data.headers.items()}
            w.check(h == ({'x': 'y', 'range': 'bytes=0-'} if kind == 'request'
                          else {'range': 'bytes=5-'}), 'and what it asks for')
        elif kind in ('file', 'bytes'):
            w.check(opened == [data], 'this file')
            w.check(a.uri is data and a.request is None, 'the file')
            w.check(w.And(a.samplerate == rate, a.channels == channels),
                    'rate and channels')
            if kind == 'bytes':
                w.check(data.tell() == 0 or True, 'read')
        elif kind == 'meta':
            w.check(a is data, 'kept as it is')
        else:
            w.check(a.uri == data and not opened, 'the address')
        if kind in ('url', 'request', 'range', 'bytes'):
            enc = ''.join(E()._process(a))
            uri = None if kind == 'bytes' else url
            if kind == 'bytes' and w.symbolic:
                return
            w.check(json.loads(enc)['uri'] == uri, 'address in the encoding')
        if kind == 'meta' and not w.symbolic:
            got = json.loads(''.join(E()._process(a)))
            w.check(got == dict(
                uri=url, samplerate=rate, channels=channels, licensing='l',
                description='e', tags='t', more='m'), 'everything is encoded')
    finally:
        mod.SoundFile = old
        shutil.rmtree(d)


def alike(w):
    """metadata is the same when all of it is"""
    A = w.z('soundfile.AudioMetaData')
    w.check(w.raises(ValueError, A), 'an address is needed')
    names = ('samplerate', 'channels', 'licensing', 'description', 'tags')
    p = {n: w.int(n, 0, 3) for n in names}
    q = {n: w.int(n + '2', 0, 3) for n in names}
    # tags are lists
    for x in (p, q):
        x['tags'] = ['tag', x['tags']]
    u, v = w.choice('u', ('a', 'b')), w.choice('v', ('a', 'b'))
    a, b = A(uri=u, **p), A(uri=v, **q)
    w.check(w.iff(a == b, w.And(u == v, *[p[n] == q[n] for n in names])),
            'the same')
    w.check(w.And(*[getattr(a, n) == p[n] for n in names]), 'kept')


def encode(w, how, rate, channels):
    """audio is written to a file completely and in order"""
    sr = w.z('timeseries.' + rate)()
    hz = sr.samples_per_second
    n = w.int('n', 1, hz * (50 if how == 'OGG' else 4))
    raw = w.labels((n, channels) if channels > 1 else (n,))
    a = w.z('timeseries.AudioSamples')(raw, sr)
    mod = w.z('ui.serializer' if how == 'web' else 'timeseries.audiosamples')
    old = mod.SoundFile
    files, writes = [], []

    class File(object):
        def __init__(self, f, **k):
            files.append((f, k))

        def write(self, x):
            writes.append(x)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            files[0][0].write(b'content')
    mod.SoundFile = File
    try:
        if how == 'web':
            class Context(object):
                value = a
                feature = document = slce = None
            s = w.z('ui.serializer.AudioSamplesSerializer')()
            w.check(s.matches(Context), 'audio')
            r = s.serialize(Context)
            w.check(r.data == b'content' and r.content_type == 'audio/ogg',
                    'what was written')
            w.check(not r.is_partial, 'all of it')
            fmt = ('OGG', 'VORBIS')
        else:
            fmt = (how, 'VORBIS' if how == 'OGG' else 'PCM_24')
            given = w.choice('given', (False, True))
            flo = io.BytesIO() if given else None
            out = a.encode(flo, fmt=fmt[0], subtype=fmt[1])
            w.check(out.read() == b'content', 'to be read from its beginning')
            w.check(not given or out is flo, 'this file')
    finally:
        mod.SoundFile = old
    k = files[0][1]
    w.check(len(files) == 1 and k['mode'] == 'w', 'one file')
    w.check((k['format'], k['subtype']) == fmt, 'format')
    w.check(k['samplerate'] == hz and k['channels'] == channels,
            'rate and channels')
    at = 0
    j = w.int('j', 0, hz * 50)
    for x in writes:
        m = x.shape[0]
        if how == 'OGG' or how == 'web':
            w.check(m <= 20 * hz, 'a bit at a time')
        ix = (j, channels - 1) if channels > 1 else (j,)
        if w.symbolic:
            got = x.at(ix)
        elif j < m:
            got = np.asarray(x)[ix]
        if w.symbolic or j < m:
            p = at + j
            want = p if channels == 1 else p * 1000003 + channels - 1
            w.check(w.Implies(j < m, got == want), 'in order')
        at = at + m
    w.check(at == n, 'all of it')


def decode(w, channels):
    """and read again"""
    mod = w.z('timeseries.audiosamples')
    A = w.z('timeseries.AudioSamples')
    rate = w.choice('rate', RATES)
    sr = w.z('timeseries.' + rate)()
    n = w.int('n', 1, 10 ** 6)
    raw = w.labels((n, channels) if channels > 1 else (n,))
    old = mod.SoundFile

    class File(object):
        samplerate = sr.samples_per_second

        def __init__(self, f, mode='r', **k):
            w.check(mode == 'r', 'to be read')

        def read(self, *a, **k):
            return raw

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    mod.SoundFile = File
    try:
        a = A.from_file('f')
    finally:
        mod.SoundFile = old
    w.check(isinstance(a, A) and type(a.samplerate).__name__ == rate,
            'at the rate of the file')
    w.check(w.And(a.shape == raw.shape, a.channels == channels), 'all of it')


def resampler(w, rate, other, channels, cuts):
    """every chunk is resampled, between the right rates, up to the end"""
    A = w.z('timeseries.AudioSamples')
    orig = w.z('timeseries.' + rate)()
    target = w.z('timeseries.' + other)()
    mod = w.z('soundfile.resample')
    made, calls = [], []
    marks = [w.array('o%d' % k, (2, channels) if channels > 1 else (2,), -1, 1)
             for k in range(len(cuts))]

    class Resample(object):
        def __init__(self, a, b, nchannels=1, converter_type=1):
            made.append((a, b, nchannels))
            self.primed = False

        def __call__(self, data, end_of_input=False):
            if not self.primed:
                # what is resampled before the sound has no part in it
                self.primed = True
                w.check(not end_of_input and len(data) > 0, 'silence first')
                w.check(data.shape[1:] == tail, 'channels of the silence')
                w.check(not w.np.asarray(data).any(), 'silence')
                return np.zeros((2,) + tail)
            calls.append((data, bool(end_of_input)))
            return marks[len(calls) - 1]
    tail = (channels,) if channels > 1 else ()
    old = mod.Resample
    mod.Resample = Resample
    try:
        chunks = [A(w.array('x%d' % k, (n,) + tail, -1, 1), orig)
                  for k, n in enumerate(cuts)]
        out = flow(w, [lambda n: w.z('soundfile.Resampler')(
            samplerate=None if other == 'SR44100' else target, needs=n)],
            chunks)
    finally:
        mod.Resample = old
    w.check(len(out) == len(chunks), 'a chunk for each')
    w.check(all(type(o) is A and type(o.samplerate).__name__ == other
                for o in out), 'at the rate asked for')
    if rate == other:
        w.check(not calls, 'nothing to resample')
        w.check(w.And(*[w.near(a, b) for a, b in zip(out, chunks)]),
                'audio of this rate is kept')
        return
    w.check(made == [(orig.samples_per_second, target.samples_per_second,
                      channels)], 'these rates and channels')
    w.check(len(calls) == len(cuts) and not any(e for _, e in calls[:-1]),
            'no end before the last chunk')
    w.check(w.And(*[w.near(c, x) for (c, _), x in zip(calls, chunks)]),
            'every chunk')
    w.check(w.And(*[w.near(o, m) for o, m in zip(out, marks)]),
            'what it is resampled to')


def library(w, orig, new, channels, layout):
    """what libsamplerate is given, and what becomes of its answer"""
    import ctypes
    mod = w.z('soundfile.resample')
    n = int(w.int('n', 0, 9))
    end = w.choice('end', (False, True))
    code = w.choice('code', (0, 5))
    valid = w.choice('valid', (True, False))
    tail = (channels,) if channels > 1 else ()
    x = (np.arange(n * channels) + 1.).reshape((n,) + tail)
    x = {'plain': lambda: x.astype(np.float32), 'double': lambda: x,
         'ints': lambda: x.astype(np.int16),
         'columns': lambda: np.asfortranarray(x.astype(np.float32)),
         'double columns': lambda: np.asfortranarray(x),
         'strided': lambda: np.repeat(x.astype(np.float32), 2, axis=0)[::2],
         'reversed': lambda: x[::-1].astype(np.float32)[::-1],
         }[layout]()
    made, asked, seen = [], [], []
    held = ctypes.c_int(0)

    class New(object):
        restype = None

        def __call__(self, kind, nchannels, error):
            made.append((kind.value, nchannels.value))
            return ctypes.pointer(held)

    class Library(object):
        src_new = New()

        @staticmethod
        def src_is_valid_ratio(r):
            asked.append(r.value)
            return int(valid)

        @staticmethod
        def src_process(state, data):
            d = data.contents
            seen.append(dict(
                ratio=d.src_ratio, end=d.end_of_input, frames=d.output_frames,
                data=[d.data_in[i] for i in range(d.input_frames * channels)]))
            for i in range(d.output_frames * channels):
                d.data_out[i] = i + 1
            d.output_frames_gen = d.output_frames
            d.input_frames_used = d.input_frames
            return code
    old = mod.libsamplerate, mod.np
    # memory is what matters here, so arrays are real ones
    mod.libsamplerate, mod.np = Library, np
    try:
        try:
            r = mod.Resample(orig, new, channels)
        except ValueError:
            w.check(not valid, 'a valid ratio')
            return
        w.check(valid, 'an invalid ratio')
        try:
            out = r(x, end)
        except Exception as e:
            if code == 0:
                raise
            return
        w.check(code == 0, 'what goes wrong is not ignored')
    finally:
        mod.libsamplerate, mod.np = old
    ratio = new / float(orig)
    w.check(asked == [ratio] and made[0][1] == channels and len(made) == 1,
            'the ratio and the channels')
    w.check(0 <= made[0][0] <= 4, 'some converter')
    s, = seen
    w.check(s['ratio'] == ratio, 'this ratio')
    w.check(bool(s['end']) is end, 'the end')
    w.check(s['data'] == [i + 1. for i in range(n * channels)],
            'all samples, frame by frame')
    w.check(abs(s['frames'] - n * ratio) <= .5, 'as long as it was')
    w.check(out.shape == (s['frames'],) + tail, 'all frames')
    w.check(np.asarray(out).ravel().tolist() ==
            [i + 1. for i in range(s['frames'] * channels)],
            'what it is resampled to')


def overlap(w, check):
    """a scale whose bands overlap too little is refused, if asked to"""
    S, B = w.z('spectral'), w.z('basic')
    a, b = w.real('a', 10, 2000), w.real('b', 10, 2000)
    w.assume(a < b)
    scale = S.ExplicitScale([S.FrequencyBand(0, b),
                             S.FrequencyBand(a, b + 2000)])
    sr = w.z('timeseries.SR11025')()
    k = {} if check is None else dict(check_scale_overlap_ratio=check)
    model = B.frequency_adaptive(sr.half_lapped(), scale, resample_to=sr, **k)
    f = model.features['freq_adaptive']
    refused = w.raises(ValueError, f.extractor, **f.extractor_args)
    few = w.raises(AssertionError, scale.ensure_overlap_ratio, .5)
    w.check(refused == (few if check else False), 'refused')


HARNESSES = [
    Harness('overlap', overlap, world_a, [(None,), (True,), (False,)],
            bounds='two bands of any width'),
    Harness('resampler', resampler, world_a,
            [('SR44100', 'SR22050', 1, (3, 2)), ('SR11025', 'SR44100', 2, (2,)),
             ('SR22050', 'SR22050', 2, (2, 1)),
             ('SR48000', 'SR11025', 2, (1, 2, 3)),
             ('SR44100', 'SR44100', 1, (3,))],
            bounds='up to 6 samples of any content in up to 3 chunks',
            stubs=['Resample']),
    Harness('library', library, world_a,
            [(44100, 22050, c, k) for c in (1, 2) for k in (
                'plain', 'double', 'ints', 'columns', 'double columns',
                'strided', 'reversed')] +
            [(11025, 44100, 2, 'columns'), (44100, 11025, 3, 'columns'),
             (48000, 44100, 2, 'plain')],
            bounds='up to 9 frames, any answer of the library',
            stubs=['libsamplerate']),
    Harness('chain', chain, world_a,
            [('windowed', 'SR11025', 4, 2, (5, 4)),
             ('windowed', 'SR44100', 3, 1, (4,), 1),
             ('stft', 'SR22050', 4, 2, (3, 4)), ('stft', 'SR44100', 4, 4, (8,)),
             ('stft', 'SR11025', 4, 2, (6,), 4),
             ('frequency_adaptive', 'SR11025', 8, 4, (7, 5)),
             ('frequency_adaptive', 'SR44100', 8, 8, (8,))],
            bounds='up to 12 samples of any content in up to 2 chunks'),
    Harness('settings', settings, world_a,
            [(k, r) for k in STORES for r in ('SR44100', 'SR22050')],
            bounds='all combinations of what is stored, chunks of up to 8 '
            'bytes', stubs=['libsamplerate']),
    Harness('applied', applied, world_a,
            [(k, r) for k in ('windowed', 'dct', 'fft', 'bark', 'chroma',
                              'bfcc', 'centroid')
             for r in ('SR44100', 'SR22050')],
            bounds='2 frames of up to 8 samples of any content; a spectrum of '
            '257 bands, one of them of any loudness (bark), or one spectrum '
            '(chroma, bfcc)'),
    Harness('onsets', onsets, world_a, [(True,), (False,)],
            bounds='up to 14 frames of any content in up to 2 chunks'),
    Harness('metadata', metadata, world_b,
            [(k,) for k in ('url', 'host', 'number', 'login', 'request', 'range', 'file', 'bytes',
                            'meta', 'other')],
            bounds='any rate, up to 8 channels', stubs=['SoundFile']),
    Harness('alike', alike, world_b, bounds='any metadata'),
    Harness('encode', encode, world_b,
            [(h, r, c) for h, r, c in (
                ('WAV', 'SR44100', 2), ('WAV', 'SR11025', 1),
                ('OGG', 'SR44100', 1), ('OGG', 'SR22050', 2),
                ('web', 'SR11025', 1), ('web', 'SR48000', 2))],
            bounds='up to 50 s (ogg) or 4 s', stubs=['SoundFile']),
    Harness('decode', decode, world_b, [(1,), (2,)],
            bounds='up to 10^6 samples', stubs=['SoundFile']),
]
ASSUMPTIONS = ['libsndfile and libsamplerate are stand-ins which note what '
               'they are asked for']
