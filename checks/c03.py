"""C03: slicing a frequency axis by a band returns exactly the coefficients of
the bands it meets."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_b


def at(w, arr, ix):
    if w.symbolic:
        return arr.at(tuple(ix))
    return int(np.asarray(arr)[tuple(ix)])


def lab(i, j):
    return i * 1000003 + j


def sym_bands(w, k, low=-100):
    """k bands with increasing starts and stops"""
    w.sym_hash()
    FB = w.z('spectral.FrequencyBand')
    edges = []
    for i in range(k):
        a, b = w.real('a%d' % i, low, 30000), w.real('b%d' % i, low, 30000)
        w.assume(a < b)
        if edges:
            w.assume(w.And(a > edges[-1][0], b > edges[-1][1]))
        edges.append((a, b))
    return edges, [FB(a, b) for a, b in edges]


def meets(w, band, lo, hi):
    # a band that only ends where the request begins counts, one that only
    # begins where the request ends does not
    return w.And(band[0] < hi, band[1] >= lo)


def chosen(w, sl, k):
    return list(range(k))[sl]


def explicit(w, k, how):
    """any scale, any request"""
    edges, bands = sym_bands(w, k)
    scale = w.z('spectral.ExplicitScale')(bands)
    if how == 'even':
        scale.always_even = True
    lo, hi = w.real('lo', -200, 40000), w.real('hi', -200, 40000)
    w.assume(lo < hi)
    req = w.z('spectral.FrequencyBand')(lo, hi)
    sl = scale.get_slice(req)
    w.check(isinstance(sl, slice), 'a slice')
    w.check(sl.step in (None, 1), 'a contiguous slice')
    got = chosen(w, sl, k)
    ms = [meets(w, e, lo, hi) for e in edges]
    if how == 'even':
        w.check(w.And(*[w.Implies(m, i in got) for i, m in enumerate(ms)]),
                'every band that meets the request is selected')
        n = sum(w.ite(m, 1, 0) for m in ms)
        w.check(len(got) % 2 == 0 or len(got) == k,
                'an even number of bands, unless all are needed')
        w.check(w.Or(n == len(got), n + 1 == len(got)),
                'at most one more band')
        w.check(w.Implies(n % 2 == 0, n == len(got)), 'no needless band')
    else:
        w.check(w.And(*[m if i in got else w.Not(m)
                        for i, m in enumerate(ms)]),
                'exactly the bands that meet the request')
    # the part of the scale
    if got and how == 'plain':
        sub = scale[req]
        w.check(len(sub) == len(got), 'size of the part')
        w.check([b.start_hz for b in sub] == [bands[i].start_hz for i in got]
                if not w.symbolic else True, 'bands of the part')
        for b, i in zip(sub, got):
            w.check(w.And(b.start_hz == edges[i][0], b.stop_hz == edges[i][1]),
                    'bands of the part')
        w.check(w.And(sub.start_hz == edges[got[0]][0],
                      sub.stop_hz == edges[got[-1]][1]), 'limits of the part')


def hertz(w, k, use_lo, use_hi):
    """slices of frequencies, counted from the top when negative"""
    edges, bands = sym_bands(w, k, 0)
    scale = w.z('spectral.ExplicitScale')(bands)
    Hz = w.z('spectral.Hertz')
    top = edges[-1][1]
    lo = hi = None
    el, eh = 0, top
    if use_lo:
        lo = w.real('lo', -1000, 40000)
        el = w.ite(lo < 0, top + lo, lo)
    if use_hi:
        hi = w.real('hi', -1000, 40000)
        eh = w.ite(hi < 0, top + hi, hi)
    w.assume(el < eh)
    sl = scale.get_slice(slice(None if lo is None else Hz(lo),
                               None if hi is None else Hz(hi)))
    got = chosen(w, sl, k)
    w.check(w.And(*[meets(w, e, el, eh) if i in got else
                    w.Not(meets(w, e, el, eh)) for i, e in enumerate(edges)]),
            'exactly the bands that meet the request')


def make_scale(w, kind, n):
    S = w.z('spectral')
    FB = S.FrequencyBand
    if kind == 'linear':
        return S.LinearScale(FB(0, 4000), n)
    if kind == 'linear20':
        return S.LinearScale(FB(20, 20000), n)
    if kind == 'even':
        return S.LinearScale(FB(0, 4000), n, always_even=True)
    if kind == 'geometric':
        return S.GeometricScale(50, 5000, 0.3, n)
    if kind == 'narrow':
        return S.GeometricScale(50, 5000, 0.01, n)
    if kind == 'bark':
        return S.BarkScale(FB(100, 5000), n)
    if kind == 'mel':
        return S.MelScale(FB(100, 5000), n)
    if kind == 'explicit':
        return S.ExplicitScale(S.GeometricScale(50, 5000, 0.5, n))


def near(w, a, b):
    d = a - b
    return w.And(d < 1e-6, d > -1e-6)


def array(w, kind, n, form):
    """slicing an array along its frequency axis, reading and writing"""
    A = w.z('core.ArrayWithUnits')
    S = w.z('spectral')
    scale = make_scale(w, kind, n)
    bands = [(b.start_hz, b.stop_hz) for b in scale]
    top = bands[-1][1]
    lo, hi = w.real('lo', 0, 30000), w.real('hi', 0, 30000)
    w.assume(lo < hi)
    if form == 'band':
        req = S.FrequencyBand(lo, hi)
    else:
        req = slice(S.Hertz(lo), S.Hertz(hi))
    want = [w.concretely_bool(meets(w, b, lo, hi)) for b in bands]
    idx = [i for i, x in enumerate(want) if x]
    if not idx:
        return
    if kind == 'even' and len(idx) % 2 and len(idx) < n:
        idx = idx + [idx[-1] + 1] if idx[-1] + 1 < n else [idx[0] - 1] + idx
    rows = w.int('rows', 1, 1000)
    T = w.z('timeseries.TimeDimension')
    td = T(w.td(10 ** 9), w.td(2 * 10 ** 9))
    arr = A(w.labels((rows, n)), [td, S.FrequencyDimension(scale)])
    res = arr[:, req]
    w.check(w.And(res.shape[0] == rows, res.shape[1] == len(idx)), 'shape')
    i = w.int('i', 0)
    j = w.int('j', 0, len(idx) - 1)
    w.assume(i < rows)
    w.check(at(w, res, (i, j)) == lab(i, idx[0] + j),
            'the coefficients of the bands that meet the request')
    fd = res.dimensions[1]
    w.check(isinstance(fd, S.FrequencyDimension), 'a frequency axis')
    w.check(len(fd.scale) == len(idx), 'as many bands as coefficients')
    w.check(w.And(*[w.And(near(w, b.start_hz, bands[q][0]),
                          near(w, b.stop_hz, bands[q][1]))
                    for b, q in zip(fd.scale, idx)]),
            'the scale of the result has the bands of its coefficients')
    w.check(w.And(w.ps(res.dimensions[0].frequency) == 10 ** 9,
                  w.ps(res.dimensions[0].duration) == 2 * 10 ** 9),
            'the time axis is kept')
    w.observe('shape', res.shape)
    # a single row, and a request on the first axis
    one = arr[0][req]
    w.check(one.shape[0] == len(idx), 'shape of a row')
    w.check(at(w, one, (j,)) == lab(0, idx[0] + j), 'row')
    # writing
    arr[:, req] = -5
    c = w.int('c', 0, n - 1)
    v = at(w, arr, (i, c))
    inside = w.And(c >= idx[0], c <= idx[-1])
    w.check(w.And(w.Implies(inside, v == -5),
                  w.Implies(w.Not(inside), v == lab(i, c))),
            'assignment changes exactly these coefficients')


def adaptive(w, k, twice):
    """a frequency-adaptive array: bands of different widths side by side"""
    S = w.z('spectral')
    T = w.z('timeseries.TimeDimension')
    scale = S.ExplicitScale([S.FrequencyBand(100 * i, 100 * (i + 1))
                             for i in range(k)])
    bands = list(scale)
    rows = w.int('rows', 1, 50)
    sizes = [w.int('s%d' % i, 1, 40) for i in range(k)]
    offs = [0]
    for s in sizes:
        offs.append(offs[-1] + s)
    whole = w.labels((rows, offs[-1]))
    if not w.symbolic:
        whole = np.asarray(whole)
    parts = [whole[:, offs[i]:offs[i + 1]] for i in range(k)]
    td = T(w.td(10 ** 9), w.td(2 * 10 ** 9))
    fa = S.FrequencyAdaptive(parts, td, scale)
    w.check(w.And(fa.shape[0] == rows, fa.shape[1] == offs[-1]), 'shape')
    r = w.int('r', 0)
    w.assume(r < rows)

    def judge(x, p, q, base, what):
        """x holds the bands p..q of fa"""
        n = offs[q + 1] - offs[p]
        w.check(w.And(x.shape[0] == rows, x.shape[1] == n), what + ': shape')
        c = w.int(what, 0)
        w.assume(c < n)
        w.check(at(w, x, (r, c)) == lab(r, offs[p] + c),
                what + ': the coefficients of its bands')
        w.check([b for b in x.dimensions[1].scale] == bands[p:q + 1],
                what + ': the bands of its coefficients')
        w.check(w.ps(x.dimensions[0].frequency) == 10 ** 9, what + ': time')

    p = w.pick('p', k)
    q = p + w.pick('q', k - p)
    judge(fa[:, bands[p]], p, p, 0, 'one band')
    # strictly inside of band p up to strictly inside of band q
    req = S.FrequencyBand(100 * p + 30, 100 * q + 60)
    part = fa[:, req]
    judge(part, p, q, 0, 'several bands')
    m = p + w.pick('m', q - p + 1)
    if twice:
        judge(part[:, bands[m]], m, m, 0, 'band of a part')
        judge(part[:, S.FrequencyBand(100 * m + 10, 100 * q + 20)], m, q, 0,
              'bands of a part')
        judge(fa[:, bands[p]][:, bands[p]], p, p, 0, 'part of a band')
        back = S.FrequencyAdaptive.from_array_with_units(part)
        judge(back, p, q, 0, 'rebuilt')
        it = list(back.iter_bands())
        w.check(len(it) == q - p + 1, 'one item per band')
        judge(it[m - p], m, m, 0, 'iterated band')
    else:
        fa[:, req] = -5
        c = w.int('cc', 0)
        w.assume(c < offs[-1])
        inside = w.And(c >= offs[p], c < offs[q + 1])
        v = at(w, fa, (r, c))
        w.check(w.And(w.Implies(inside, v == -5),
                      w.Implies(w.Not(inside), v == lab(r, c))),
                'assignment changes exactly these bands')
        two = fa.concatenate(fa)
        w.check(two.shape[0] == 2 * rows, 'concatenated')
        w.check(list(two.dimensions[1].scale) == bands, 'bands are kept')
        one = two[:, bands[p]]
        w.check(one.shape[1] == sizes[p], 'band of a concatenation')


KINDS = ['linear', 'linear20', 'even', 'geometric', 'narrow', 'bark', 'mel',
         'explicit']
HARNESSES = [
    Harness('explicit', explicit, world_b,
            [(k, h) for k in (1, 2, 3, 4, 5, 6) for h in ('plain', 'even')],
            bounds='1 to 6 bands with arbitrary increasing limits, any '
                   'request', validate=4),
    Harness('hertz', hertz, world_b,
            [(k, a, b) for k in (1, 3, 5) for a, b in
             ((True, False), (False, True), (True, True))],
            bounds='1 to 5 bands with arbitrary limits, any slice of '
                   'frequencies, open ended or counted from the top',
            validate=4),
    Harness('array', array, world_b,
            [(k, n, f) for k in KINDS for n in (1, 2, 5, 8)
             for f in ('band', 'hertz')
             if not (n == 1 and k == 'hertz')],
            bounds='1, 2, 5 and 8 bands of every kind of scale, any request, '
                   'up to 1000 frames', validate=3),
    Harness('adaptive', adaptive, world_b,
            [(k, t) for k in (1, 2, 3, 4) for t in (False, True)],
            bounds='1 to 4 bands of 1 to 40 coefficients, up to 50 frames',
            validate=3),
]
ASSUMPTIONS = ['frequencies are real numbers: rounding of band limits is not '
               'modelled']
