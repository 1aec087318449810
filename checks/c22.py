"""C22: a growable array holds what was put into it."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a


def history(w, shape, rate, dtype, steps):
    """any sequence of appends and extensions"""
    G = w.z('nputil.Growable')
    rest = shape[1:]
    d = np.dtype(dtype)
    pos = w.pick('pos', shape[0] + 1)
    first = w.array('first', shape, -100, 100, d)
    g = G(first, position=pos, growth_rate=rate)
    want = [first[i] for i in range(pos)]
    for k in range(steps):
        n = w.pick('n%d' % k, 5)
        if n == 0:
            x = w.array('x%d' % k, (1,) + rest, -100, 100, d)
            r = g.append(x[0])
            want.append(x[0])
        else:
            x = w.array('x%d' % k, (n - 1,) + rest, -100, 100, d)
            r = g.extend(x)
            want.extend(x[i] for i in range(n - 1))
        w.check(r is g, 'calls can be chained')
        w.check(g.logical_size == len(want), 'logical size')
        w.check(g.physical_size >= g.logical_size, 'room for everything')
    got = g.logical_data
    w.check(got.shape == (len(want),) + rest, 'shape')
    w.check(g.data.dtype == d, 'type')
    for a, b in zip(got, want):
        w.check(w.equal(a, b), 'everything in order')
    w.check(len(g.data) == g.physical_size, 'physical size')


def growth(w, size, rate):
    """grows by the rate when that is enough, otherwise by what is needed"""
    G = w.z('nputil.Growable')
    pos = w.pick('pos', size + 1)
    g = G(w.array('first', (size,)), position=pos, growth_rate=rate)
    step = max(int(size * rate), 1)
    n = w.pick('n', 2 * size + 3)
    if n == 0:
        g.append(w.real('x'))
        w.check(g.physical_size == size + (step if pos == size else 0),
                'one step when it is full')
    else:
        g.extend(w.array('x', (n,)))
        need = pos + n - size
        w.check(g.physical_size == size + (
            max(need, step) if need > 0 else 0), 'as much as needed')
    m = g.physical_size
    while g.logical_size < m:
        g.append(1.0)
    w.check(g.physical_size == m, 'memory is used before more is taken')


def rates(w):
    G = w.z('nputil.Growable')
    r = w.real('rate', -10, 10)
    bad = w.raises(ValueError, lambda: G(w.constant(np.zeros(1)),
                                         growth_rate=r))
    w.check(w.iff(bad, r <= 0), 'the growth rate is positive')


HARNESSES = [
    Harness('history', history, world_a,
            [((2,), 1, 'float64', 3), ((0,), 1, 'float64', 3),
             ((1, 2), .5, 'float32', 3), ((3,), .1, 'int64', 3),
             ((0, 2), 2, 'float64', 3), ((2, 1, 2), 1.5, 'float64', 2)],
            bounds='2 or 3 operations of up to 3 items on arrays which begin '
            'with up to 3 rows; every content'),
    Harness('growth', growth, world_a, [(3, 1), (4, .5), (5, .25), (2, .1),
                                        (2, 2)],
            bounds='sizes up to 5, up to twice as many items and two'),
    Harness('rates', rates, world_a, bounds='rates from -10 to 10'),
]
ASSUMPTIONS = ['the initial position lies inside the initial array']
