"""C04: bands and scales: intervals of frequencies and how scales divide them."""
from symz.harness import Harness
from symz.worlds import world_b


def near(w, a, b, tol=1e-9):
    """equal up to rounding"""
    if w.symbolic:
        return a == b
    return abs(float(a) - float(b)) <= tol * max(1, abs(float(a)), abs(float(b)))


def lt(w, a, b):
    return a < b


def pair(w, n):
    return w.real('lo%d' % n, -1000, 50000), w.real('hi%d' % n, -1000, 50000)


def band(w):
    w.sym_hash()
    FB = w.z('spectral.FrequencyBand')
    a, b = pair(w, 0)
    if w.concretely_bool(a < b):
        x = FB(a, b)
    else:
        w.check(w.raises(ValueError, FB, a, b), 'an empty band is refused')
        return
    w.check(w.And(x.start_hz == a, x.stop_hz == b), 'limits')
    w.check(near(w, x.bandwidth, b - a), 'bandwidth')
    w.check(near(w, x.center_frequency, (a + b) / 2), 'center')
    y = FB.from_start(a, b - a)
    w.check(w.And(near(w, y.start_hz, a), near(w, y.stop_hz, b)), 'from start')
    c, bw = w.real('c', 0, 30000), w.real('bw', 0, 30000)
    w.assume(bw > 1)
    y = FB.from_center(c, bw)
    w.check(w.And(near(w, y.center_frequency, c), near(w, y.bandwidth, bw)),
            'a band has the center and width it was made from')
    Hz = w.z('spectral.Hertz')
    y = FB(Hz(a), Hz(b))
    w.check(w.And(y == x, x == y), 'frequencies and numbers give equal bands')


def two(w):
    w.sym_hash()
    FB = w.z('spectral.FrequencyBand')
    (a, b), (c, d) = pair(w, 0), pair(w, 1)
    w.assume(w.And(a < b, c < d))
    x, y = FB(a, b), FB(c, d)
    w.check(w.iff(x == y, w.And(a == c, b == d)),
            'bands are equal when their limits are')
    if w.concretely_bool(x == y):
        w.check(w.same_hash(x, y), 'equal bands hash equally')
    w.check(near(w, x.bandwidth_ratio(y) * (b - a), d - c), 'bandwidth ratio')
    lo, hi = w.ite(a > c, a, c), w.ite(b < d, b, d)
    for p, q in ((x, y), (y, x)):
        if w.concretely_bool(lo < hi):
            z = p.intersect(q)
            w.check(w.And(z.start_hz == lo, z.stop_hz == hi),
                    'an intersection is what both bands have in common')
            r = p.intersection_ratio(q)
            w.check(near(w, r * p.bandwidth, hi - lo),
                    'share of the band that is common')
        else:
            w.check(w.raises(ValueError, p.intersect, q),
                    'bands without common frequencies do not intersect')
            w.check(w.raises(ValueError, p.intersection_ratio, q),
                    'bands without common frequencies do not intersect')


def overlap(w, k):
    """ensure_overlap_ratio"""
    S = w.z('spectral')
    e = []
    for i in range(k):
        a, b = w.real('a%d' % i, 0, 30000), w.real('b%d' % i, 0, 30000)
        w.assume(a < b)
        if e:
            w.assume(w.And(a > e[-1][0], b > e[-1][1]))
        e.append((a, b))
    scale = S.ExplicitScale([S.FrequencyBand(a, b) for a, b in e])
    r = w.real('ratio', 0, 1)
    w.assume(r > 0)
    # common part of neighbours, as a share of the lower one
    enough = [w.And(e[i][1] > e[i + 1][0],
                    e[i][1] - e[i + 1][0] >= r * (e[i][1] - e[i][0]))
              for i in range(k - 1)]
    if not w.symbolic:
        # rounding may decide a tie
        for i in range(k - 1):
            if abs((e[i][1] - e[i + 1][0]) / (e[i][1] - e[i][0]) - r) < 1e-9:
                return
    fine = w.And(*enough) if enough else True
    bad = w.raises(AssertionError, scale.ensure_overlap_ratio, r)
    w.check(w.Not(fine) if bad else fine,
            'refused exactly when some neighbours overlap too little')


def linear(w, n):
    S = w.z('spectral')
    a, b = pair(w, 0)
    w.assume(a + 1 < b)
    scale = S.LinearScale(S.FrequencyBand(a, b), n)
    bands = list(scale.bands)
    w.check(len(scale) == n, 'size')
    w.check(len(bands) == n, 'number of bands')
    w.check(w.And(near(w, bands[0].start_hz, a), near(w, bands[-1].stop_hz, b)),
            'the bands reach from the lower to the upper limit')
    for i, x in enumerate(bands):
        w.check(near(w, x.bandwidth * n, b - a), 'all bands are as wide')
        w.check(near(w, x.start_hz, a + (b - a) * i / n), 'band i starts at i')
        if i:
            w.check(near(w, x.start_hz, bands[i - 1].stop_hz),
                    'no gaps and no overlaps')
    w.check(w.And(scale.start_hz == a, scale.stop_hz == b), 'limits')
    cs, bw = list(scale.center_frequencies), list(scale.bandwidths)
    for x, c, d in zip(bands, cs, bw):
        w.check(w.And(near(w, c, x.center_frequency), near(w, d, x.bandwidth)),
                'center frequencies and bandwidths are those of the bands')
    w.check(len(cs) == n and len(bw) == n, 'one per band')
    for i in range(n):
        w.check(w.And(scale[i].start_hz == bands[i].start_hz,
                      scale[i].stop_hz == bands[i].stop_hz), 'band by number')
    w.check(scale[-1].stop_hz == bands[-1].stop_hz, 'last band')
    # contiguous parts
    i = w.pick('i', n)
    j = i + 1 + w.pick('j', n - i)
    part = scale[i:j]
    w.check(len(part) == j - i, 'size of a part')
    for x, y in zip(part, bands[i:j]):
        w.check(w.And(near(w, x.start_hz, y.start_hz),
                      near(w, x.stop_hz, y.stop_hz)), 'bands of a part')
    # equality
    c, d = pair(w, 1)
    w.assume(c + 1 < d)
    other = S.LinearScale(S.FrequencyBand(c, d), n)
    w.check(w.iff(scale == other, w.And(a == c, b == d)),
            'equal scales have equal bands')
    w.check(not (scale == S.LinearScale(S.FrequencyBand(a, b), n + 1)),
            'scales with different numbers of bands differ')


def geometric(w, lo, hi, n):
    """centers progress geometrically, Q is constant"""
    S = w.z('spectral')
    r = w.real('ratio', 0, 1)
    w.assume(r > 0.001)
    scale = S.GeometricScale(lo, hi, r, n)
    bands = list(scale)
    w.check(len(scale) == n and len(bands) == n, 'number of bands')
    for i, x in enumerate(bands):
        c = lo * (hi / lo) ** (i / max(n - 1., 1.))
        d = x.center_frequency - c
        w.check(w.And(d < 1e-6 * c, d > -1e-6 * c),
                'centers progress geometrically between the limits')
        d = x.bandwidth - r * c
        w.check(w.And(d < 1e-6 * c, d > -1e-6 * c),
                'bandwidths are proportional to the centers')
    w.check(w.And(scale.start_hz == bands[0].start_hz,
                  scale.stop_hz == bands[-1].stop_hz), 'limits')
    r2 = w.real('other', 0, 1)
    w.assume(r2 > 0.001)
    w.check(w.iff(scale == S.GeometricScale(lo, hi, r2, n), r == r2),
            'equality')


def parts(w, kind, n):
    """a part of a scale has its bands"""
    S = w.z('spectral')
    if kind == 'geometric':
        scale = S.GeometricScale(20, 5000, w.real('ratio', .01, 1), n)
    elif kind == 'explicit':
        lo, e = w.real('lo', 0, 100), []
        for k in range(n):
            e.append(S.FrequencyBand(lo, lo + w.real('width%d' % k, 1, 1000)))
            lo = lo + w.real('step%d' % k, 1, 1000)
        scale = S.ExplicitScale(e)
    else:
        C = {'mel': S.MelScale, 'bark': S.BarkScale}[kind]
        scale = C(S.FrequencyBand(100, 5000), n)
    bands = list(scale)
    w.check(len(scale) == n and len(bands) == n, 'number of bands')
    same = lambda x, y: w.And(near(w, x.start_hz, y.start_hz),
                              near(w, x.stop_hz, y.stop_hz))
    i = w.pick('i', n)
    j = i + 1 + w.pick('j', n - i)
    lo, hi = i, j
    if w.choice('from', ('number', 'end')) == 'end':
        lo, hi = i - n, None if j == n else j - n
    part = scale[lo:hi]
    w.check(len(part) == j - i and len(list(part)) == j - i,
            'size of a part')
    w.check(w.And(*[same(x, y) for x, y in zip(part, bands[i:j])]),
            'bands of a part')
    w.check(same(scale[lo], bands[i]), 'band by number')
    w.check(w.And(near(w, part.start_hz, bands[i].start_hz),
                  near(w, part.stop_hz, bands[j - 1].stop_hz)),
            'limits of a part')
    w.check(part == S.ExplicitScale(bands[i:j]) or
            not isinstance(part, S.ExplicitScale), 'equal bands')


def equality(w, k, m):
    """explicit scales are equal exactly when their bands are"""
    S = w.z('spectral')

    def make(tag, k):
        e = []
        for i in range(k):
            a, b = w.real('%sa%d' % (tag, i), 0, 30000), \
                w.real('%sb%d' % (tag, i), 0, 30000)
            w.assume(a < b)
            if e:
                w.assume(w.And(a > e[-1][0], b > e[-1][1]))
            e.append((a, b))
        return e, S.ExplicitScale([S.FrequencyBand(a, b) for a, b in e])
    e, x = make('x', k)
    f, y = make('y', m)
    same = k == m
    if same:
        same = w.And(*[w.And(p[0] == q[0], p[1] == q[1])
                       for p, q in zip(e, f)])
    w.check(w.iff(x == y, same), 'equal exactly when all bands are')
    w.check(w.iff(y == x, same), 'equality is symmetric')
    w.check(w.And(x.start_hz == e[0][0], x.stop_hz == e[-1][1]), 'limits')
    z = S.ExplicitScale(x)
    w.check(x == z, 'a scale made from a scale is equal to it')
    w.check(w.iff(S.FrequencyDimension(x) == S.FrequencyDimension(y), same),
            'axes are equal when their scales are')


def hertz(w):
    Hz = w.z('spectral.Hertz')
    a, b = w.real('a', -1000, 30000), w.real('b', -1000, 30000)
    x, y = Hz(a), Hz(b)
    w.check(w.And(x == a, x.hz == a), 'value')
    w.check(near(w, (x + y).hz, a + b), 'sum of frequencies')
    w.check(near(w, (x + b).hz, a + b), 'sum of a frequency and a number')
    w.check(near(w, (x + -y).hz, a - b), 'difference')
    w.check(w.And((-x).hz == -a, -x == -a), 'negative')
    w.check(w.And((x + y).__class__ is Hz, (-x).__class__ is Hz), 'type')
    w.check(Hz(x).hz == a, 'frequency of a frequency')
    w.check(w.iff(x < y, a < b), 'order')


def units(w, kind):
    """bark and mel values are the frequencies they stand for"""
    S = w.z('spectral.frequencyscale')
    cls = getattr(S, kind)
    a, b = w.real('a', 1, 20), w.real('b', 1, 20)
    x, y = cls(a), cls(b)
    hz = cls.to_hz(a)
    w.check(w.And(near(w, x, hz), near(w, x.hz, hz)), 'value')
    w.check(near(w, (x + y).hz, hz + cls.to_hz(b)), 'sum')
    w.check(near(w, (-x).hz, -hz), 'negative')
    w.assume(x < y)
    w.assume(hz < cls.to_hz(b))
    z = S.FrequencyBand(x, y)
    w.check(w.And(near(w, z.bandwidth, cls.to_hz(b) - hz),
                  near(w, z.start_hz, hz)), 'bands are in hertz')


def sample_rates(w, n, *names):
    S = w.z('spectral')
    T = w.z('timeseries')
    for name in names:
        sr = getattr(T, name)()
        scale = S.LinearScale.from_sample_rate(sr, n)
        hz = int(name[2:])
        w.check(scale.start_hz == 0, 'starts at zero')
        w.check(abs(scale.stop_hz - hz / 2) <= 1, 'reaches the nyquist '
                                                  'frequency')
        w.check(len(list(scale)) == n, 'bands')
        w.check(S.FrequencyBand.audible_range(sr).stop_hz == scale.stop_hz,
                'audible range ends at the nyquist frequency')
        r = w.real('f' + name, 0, 5000)
        sl = scale.get_slice(S.FrequencyBand(r, r + 1))
        w.check(sl.stop > sl.start, 'every frequency belongs to a band')


HARNESSES = [
    Harness('band', band, world_b, bounds='any limits from -1 to 50 kHz'),
    Harness('two', two, world_b, bounds='any two bands'),
    Harness('hertz', hertz, world_b, bounds='any two frequencies'),
    Harness('units', units, world_b, [('Bark',), ('Mel',)],
            bounds='1 to 20 units; the exponential is an arbitrary function'),
    Harness('overlap', overlap, world_b, [(k,) for k in (1, 2, 3, 4, 5)],
            bounds='1 to 5 bands with any increasing limits, any ratio'),
    Harness('linear', linear, world_b, [(k,) for k in (1, 2, 3, 4, 6, 8)],
            bounds='1 to 8 bands between any limits'),
    Harness('geometric', geometric, world_b,
            [(20, 5000, n) for n in (1, 2, 3, 8, 64)] + [(.25, 64., 5)] +
            [(50, 11025. / 2, 5), (300, 3000, 12)],
            bounds='1 to 64 bands, any bandwidth ratio'),
    Harness('parts', parts, world_b,
            [('geometric', 4), ('explicit', 3), ('mel', 5), ('bark', 5)],
            bounds='scales of up to 5 bands, any part without gaps'),
    Harness('equality', equality, world_b,
            [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (2, 3), (4, 4)],
            bounds='any two scales of 1 to 4 bands'),
    Harness('sample_rates', sample_rates, world_b, [(n, r) for n in (1, 4, 10) for r in
             ('SR96000', 'SR48000', 'SR44100', 'SR22050', 'SR16000',
              'SR11025')],
            bounds='all sample rates, 1, 4 and 10 bands'),
]
ASSUMPTIONS = ['frequencies are real numbers: rounding of band limits is not '
               'modelled']
