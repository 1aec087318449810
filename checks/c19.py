"""C19: compression of amplitudes can be undone, scaling scales."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a


def el(w, a, *i):
    from symz import anp
    return anp.raw(a)[i] if w.symbolic else a[i]


def mu_law(w, mu, n):
    """in [-1, 1], same sign, monotone, and back"""
    f = w.z('loudness.mu_law')
    g = w.z('loudness.inverse_mu_law')
    w.fork_signs()
    x = w.array('x', (n,), -1, 1)
    keep = x.copy()
    y = f(x, mu=mu)
    w.check(w.equal(x, keep), 'the input is left as it was')
    w.check(y.shape == (n,), 'shape')
    for i in range(n):
        a, b = el(w, x, i), el(w, y, i)
        w.check(w.And(b <= 1 + 1e-9, b >= -1 - 1e-9), 'stays in [-1, 1]')
        w.check(w.And(w.iff(a > 0, b > 0), w.iff(a < 0, b < 0)), 'sign')
        w.check(w.And(w.Implies(a > 0, b >= a - 1e-9),
                      w.Implies(a < 0, b <= a + 1e-9)), 'louder')
    z = g(y, mu=mu)
    w.check(w.near(z, x, 1e-6), 'and back')
    w.check(w.near(f(g(x, mu=mu), mu=mu), x, 1e-6), 'there and back')
    w.check(w.equal(x, keep), 'the input is left as it was')


def nodes(w, which, number):
    """nodes of a graph, with these parameters"""
    w.fork_signs()
    if which == 'mu_law':
        x = w.array('x', (2,), -1, 1)
        out = list(w.z('loudness.MuLaw')(mu=number)._process(x))
        want = x
        back = w.z('loudness.inverse_mu_law')
        args = dict(mu=number)
    else:
        x = w.array('x', (2,), -10, 10)
        out = list(w.z('loudness.LogModulus')(factor=number)._process(x))
        want = x * number
        back = w.z('loudness.inverse_log_modulus')
        args = {}
    w.check(len(out) == 1 and out[0].shape == (2,), 'one result')
    w.check(w.near(back(out[0], **args), want, 1e-6), 'and back')


def ends(w, mu):
    f, g = w.z('loudness.mu_law'), w.z('loudness.inverse_mu_law')
    x = w.constant(np.array([-1., 0, 1]))
    w.check(w.near(f(x, mu=mu), x, 1e-9), 'keeps -1, 0 and 1')
    w.check(w.near(g(x, mu=mu), x, 1e-9), 'keeps -1, 0 and 1')


def increasing(w, which):
    w.fork_signs()
    f = w.z('loudness.' + which)
    x = w.array('x', (2,), -1, 1)
    a, b = el(w, x, 0), el(w, x, 1)
    w.assume(a < b - 1e-3)
    y = f(x)
    w.check(el(w, y, 0) < el(w, y, 1), 'strictly increasing')


def log_modulus(w, n):
    f, g = w.z('loudness.log_modulus'), w.z('loudness.inverse_log_modulus')
    w.fork_signs()
    x = w.array('x', (n,), -1000, 1000)
    y = f(x)
    w.check(w.near(g(y), x, 1e-6), 'and back')
    for i in range(n):
        a, b = el(w, x, i), el(w, y, i)
        w.check(w.And(w.iff(a > 0, b > 0), w.iff(a < 0, b < 0)), 'sign')
        w.check(w.And(b <= w.ite(a > 0, a, -a) + 1e-9), 'quieter')


def log_modulus_back(w):
    f, g = w.z('loudness.log_modulus'), w.z('loudness.inverse_log_modulus')
    w.fork_signs()
    x = w.array('x', (1,), -5, 5)
    w.check(w.near(f(g(x)), x, 1e-6), 'there and back')


def audio(w):
    """units are kept"""
    w.fork_signs()
    A = w.z('core.ArrayWithUnits')
    SR = w.z('timeseries.SR11025')()
    x = w.z('timeseries.AudioSamples')(w.array('x', (2,), -1, 1), SR)
    for there, back in (('mu_law', 'inverse_mu_law'),
                        ('log_modulus', 'inverse_log_modulus')):
        y = w.z('loudness.' + there)(x)
        w.check(isinstance(y, A), 'keeps the units')
        w.check(y.dimensions[0] == x.dimensions[0], 'keeps the dimension')
        z = w.z('loudness.' + back)(y)
        w.check(isinstance(z, A), 'keeps the units')
        w.check(w.near(np.asarray(z) if not w.symbolic else z, x, 1e-6),
                'and back')


def unit_scale(w, shape, axis):
    """from 0 to 1 along the axis, in proportion; silence for a constant"""
    f = w.z('loudness.unit_scale')
    x = w.array('x', shape, -100, 100)
    y = f(x, axis=axis)
    w.check(y.shape == shape, 'shape')
    for row in groups(shape, axis):
        a = [el(w, x, *i) for i in row]
        b = [el(w, y, *i) for i in row]
        lo, hi = least(w, a), most(w, a)
        w.assume(w.Or(hi == lo, hi - lo > 1e-3))
        for p, q in zip(a, b):
            w.check(w.And(q >= 0, q <= 1 + 1e-9), 'in [0, 1]')
            e = q * (hi - lo) - (p - lo)
            w.check(w.And(e <= 1e-6, e >= -1e-6), 'in proportion')
            w.check(w.Implies(hi == lo, q == 0), 'nothing to scale')


def instance_scale(w, shape, axis):
    f = w.z('loudness.instance_scale')
    x = w.array('x', shape, -100, 100)
    m, y = f(x, axis=axis, return_maxes=True)
    w.check(w.equal(y, f(x, axis=axis)), 'one result')
    w.check(y.shape == shape, 'shape')
    for row in groups(shape, axis):
        a = [el(w, x, *i) for i in row]
        b = [el(w, y, *i) for i in row]
        k = most(w, [w.ite(v >= 0, v, -v) for v in a])
        w.check(el(w, m, *[0 if j == axis else c for j, c in
                           enumerate(row[0])]) == k, 'largest amplitude')
        for p, q in zip(a, b):
            w.check(w.And(q <= 1, q >= -1), 'in [-1, 1]')
            e = q * (k + 1e-8) - p
            w.check(w.And(e <= 1e-6, e >= -1e-6), 'in proportion')


def groups(shape, axis):
    if axis is None:
        return [list(np.ndindex(*shape))]
    axis %= len(shape)
    d = {}
    for i in np.ndindex(*shape):
        d.setdefault(i[:axis] + i[axis + 1:], []).append(i)
    return list(d.values())


def most(w, vs):
    r = vs[0]
    for v in vs[1:]:
        r = w.ite(v > r, v, r)
    return r


def least(w, vs):
    return -most(w, [-v for v in vs])


def one_hot(w, n, axis):
    f = w.z('loudness.inverse_one_hot')
    ks = [w.int('k%d' % i, 0, n - 1) for i in range(2)]
    rows = [[w.ite(k == j, 1.0, 0.0) for j in range(n)] for k in ks]
    a = w.np.array(rows)
    y = f(a if axis == -1 else a.T, axis=axis)
    for i, k in enumerate(ks):
        e = el(w, y, i) - (k * (2.0 / n) - 1)
        w.check(w.And(e < 1e-5, e > -1e-5), 'the place of the category')


def series(w, x, dims):
    TD = w.z('timeseries.TimeDimension')
    SR = w.z('timeseries.SR11025')()
    return w.z('core.ArrayWithUnits')(
        x, [TD(*SR) if i == len(dims) - 1 else
            TD(SR.frequency * 2, SR.duration * 2) for i in range(len(dims))])


def categorical(w, mu, shape, normalize):
    """one category for each sample, from which it can be recovered"""
    w.fork_signs()
    f = w.z('timeseries.categorical')
    g = w.z('timeseries.inverse_categorical')
    x = w.array('x', shape, -1, 1)
    loud = 1.0
    if normalize:
        flat = [el(w, x, *i) for i in np.ndindex(*shape)]
        loud = most(w, [w.ite(v >= 0, v, -v) for v in flat])
        w.assume(w.Or(loud > .1, loud == 0))
    s = series(w, x, shape)
    c = f(s, mu=mu, normalize=normalize)
    w.check(c.shape == shape + (mu + 1,), 'shape')
    for i in np.ndindex(*shape):
        t = 0
        for j in range(mu + 1):
            v = el(w, c, *(i + (j,)))
            w.check(w.Or(v == 0, v == 1), 'taken or not')
            t = t + v
        w.check(t == 1, 'one category')
    y = g(c, mu=mu)
    w.check(y.shape == shape, 'shape')
    w.check(len(y.dimensions) == len(s.dimensions) and all(
        a == b for a, b in zip(y.dimensions, s.dimensions)), 'dimensions')
    m = w.z('loudness.mu_law')
    p = m(y, mu=mu)
    q = x if not normalize else w.np.array(
        [w.ite(loud == 0, 0.0, el(w, x, *i) / w.ite(loud == 0, 1.0, loud))
         for i in np.ndindex(*shape)]).reshape(shape)
    r = m(q, mu=mu)
    for i in np.ndindex(*shape):
        e = el(w, p, *i) - el(w, r, *i)
        w.check(w.And(e <= 2.0 / mu + 1e-4, e >= -2.0 / mu - 1e-4),
                'the sample, as far as its category tells')


HARNESSES = [
    Harness('nodes', nodes, world_a, [('mu_law', 255), ('mu_law', 15),
            ('log_modulus', 1), ('log_modulus', 2.5), ('log_modulus', 10)],
            bounds='2 samples'),
    Harness('mu_law', mu_law, world_a, [(255, 1), (15, 1), (255, 2)],
            bounds='every sample in [-1, 1]'),
    Harness('ends', ends, world_a, [(255,), (100,), (1,)],
            bounds='-1, 0 and 1'),
    Harness('increasing', increasing, world_a,
            [(k,) for k in ('mu_law', 'inverse_mu_law', 'log_modulus',
                            'inverse_log_modulus')],
            bounds='samples in [-1, 1] that are at least 0.001 apart'),
    Harness('log_modulus', log_modulus, world_a, [(1,), (2,)],
            bounds='samples up to 1000'),
    Harness('log_modulus_back', log_modulus_back, world_a,
            bounds='samples up to 5'),
    Harness('audio', audio, world_a, bounds='2 samples in [-1, 1]'),
    Harness('unit_scale', unit_scale, world_a,
            [((3,), None), ((2, 2), 0), ((2, 2), -1), ((1, 3), -1),
             ((2, 2), None)], bounds='up to 4 elements up to 100'),
    Harness('instance_scale', instance_scale, world_a,
            [((3,), -1), ((2, 2), -1), ((2, 2), 0)],
            bounds='up to 4 elements up to 100'),
    Harness('one_hot', one_hot, world_a, [(2, -1), (4, -1), (4, 0)],
            bounds='2 to 4 categories'),
    Harness('categorical', categorical, world_a,
            [(7, (1,), False), (7, (2,), True), (255, (1,), False),
             (3, (1, 2), False)],
            bounds='1 or 2 samples in [-1, 1]; 4, 8 and 256 categories'),
]
ASSUMPTIONS = ['log and exp are known by their properties: inverse, '
               'increasing, convex, and their values at the constants used']
