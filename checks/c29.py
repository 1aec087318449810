"""C29: an exhaustive search finds the nearest slices."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a
from .c10 import bits_of
from .c14 import el


def examples(w, counts, arrays, f, d):
    T, I = w.z('timeseries.TimeDimension'), w.z('core.IdentityDimension')
    for i, a in enumerate(arrays):
        yield 'doc%d' % i, w.z('core.ArrayWithUnits')(
            a, [T(w.td(f), w.td(d))] + [I() for _ in a.shape[1:]])


def found(w, results, counts, f, d):
    """which slices these are"""
    out = []
    for r in results:
        _id, ts = r
        n = counts[int(_id[3:])]
        ks = [k for k in range(n) if w.concretely_bool(w.And(
            w.ps(ts.start) == k * f, w.ps(ts.duration) == d))]
        w.check(len(ks) == 1, 'a slice of the document')
        out.append((int(_id[3:]), ks[0]))
    return out


def search(w, kind, counts, size, n, how):
    f, d = w.int('f', 1, 10 ** 12), w.int('d', 1, 10 ** 12)
    index = w.z('index.brute_force')
    if kind == 'hamming':
        arrays = [w.array('a%d' % i, (c, size), dtype=np.uint64)
                  for i, c in enumerate(counts)]
        s = index.HammingDistanceBruteForceSearch(
            examples(w, counts, arrays, f, d))
    else:
        arrays = [w.array('a%d' % i, (c, size), -10, 10)
                  for i, c in enumerate(counts)]
        kw = {} if kind == 'default' else dict(distance_metric=kind)
        s = index.BruteForceSearch(examples(w, counts, arrays, f, d), **kw)
    total = sum(counts)
    if how == 'random':
        with w.chance():
            res = s.random_search(n)
        q = res.query
        w.check(w.Or(*[w.And(*[el(w, q, k) == el(w, a, i, k)
                               for k in range(size)])
                       for a, c in zip(arrays, counts) for i in range(c)]),
                'for one of the slices')
    else:
        q = w.array('q', (size,), dtype=np.uint64) if kind == 'hamming' \
            else w.array('q', (size,), -10, 10)
        res = s.search(q, n) if n != 10 else s.search(q)
        w.check(res.query is q, 'the query')
    hits = found(w, res, counts, f, d)
    w.check(len(hits) == min(n, total), 'as many as asked for')
    w.check(len(set(hits)) == len(hits), 'different ones')

    def distance(i, k):
        t = 0
        for j in range(size):
            x, y = el(w, arrays[i], k, j), el(w, q, j)
            if kind == 'hamming':
                t = bits_of(w, x ^ y) + t
            elif kind == 'cityblock':
                t = w.ite(x > y, x - y, y - x) + t
            else:
                t = (x - y) * (x - y) + t
        return t
    dist = [distance(*h) for h in hits]
    tol = 0 if kind == 'hamming' else 1e-6
    w.check(w.And(True, *[a <= b + tol for a, b in zip(dist, dist[1:])]),
            'nearest first')
    rest = [distance(i, k) for i, c in enumerate(counts) for k in range(c)
            if (i, k) not in hits]
    w.check(w.And(True, *[a <= b + tol for a in dist[-1:] for b in rest]),
            'none of the others is nearer')


HARNESSES = [
    Harness('search', search, world_a,
            [('hamming', (2, 1), 1, 2, 'query'),
             ('hamming', (1, 2), 2, 10, 'query'),
             ('hamming', (1, 1), 1, 2, 'random'),
             ('cityblock', (2, 1), 2, 2, 'query'),
             ('cityblock', (1, 2), 2, 3, 'random'),
             ('default', (1, 2), 1, 1, 'query'),
             ('default', (2,), 1, 10, 'query'),
             ('sqeuclidean', (1, 1), 2, 2, 'query'),
             ('cityblock', (4,), 1, 10, 'query'),
             ('cityblock', (3, 1), 1, 3, 'query'),
             ('hamming', (2, 2), 1, 4, 'query')],
            bounds='up to 4 slices of up to 2 documents of any content, any '
            'frequency and duration up to a second'),
]
ASSUMPTIONS = []
