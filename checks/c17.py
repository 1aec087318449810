"""C17: random samples are samples of what was seen."""
import itertools
import numpy as np
from symz import sched
from symz.harness import Harness
from symz.worlds import world_a

FILES = ['zounds/learn/random_samples.py']


def el(w, a, *i):
    from symz import anp
    return anp.raw(a)[i] if w.symbolic else a[i]


def rows(w, a):
    return [el(w, a, i, 0) for i in range(len(a))]


def series(w, x):
    TD, S = w.z('timeseries.TimeDimension'), w.z('timeseries.Seconds')
    I = w.z('core.IdentityDimension')
    return w.z('core.ArrayWithUnits')(x, [TD(S(1), S(2)), I()])


def some(w, name, n, cols=2):
    return w.array(name, (n, cols), -100, 100)


def same(w, a, b):
    return w.equal(a, b)


def draws(w, f, *a):
    with w.chance():
        return f(*a)


def reservoir(w, size, adds, unit):
    """every slot that is taken holds the last sample that was put there"""
    R = w.z('learn.random_samples.Reservoir')
    r = R(size)
    want = {}
    w.check(len(r) == 0 and r.percent_full() == 0, 'empty')
    for k, n in enumerate(adds):
        x = some(w, 'x%d' % k, n)
        idx = [w.pick('i%d_%d' % (k, j), size) for j in range(n)]
        r.add(series(w, x) if unit else x, indices=np.array(idx, dtype=int))
        for j, i in enumerate(idx):
            want[i] = x[j]
        w.check(len(r) == len(want), 'how many')
        w.check(r.percent_full() == len(want) / float(size), 'how full')
        got = r.get()
        w.check(got.shape == (len(want), 2), 'only what was put in')
        for row, i in zip(got, sorted(want)):
            w.check(same(w, np.asarray(row) if not w.symbolic else row,
                         want[i]), 'the last sample of the slot')
        if unit:
            A = w.z('core.ArrayWithUnits')
            w.check(isinstance(got, A) and len(got.dimensions) == 2, 'units')
    b = w.pick('batch', size + 2)
    out = []

    def batch():
        with w.chance():
            out.append(r.get_batch(b))
    bad = w.raises(ValueError, batch)
    w.check(bad == (b > len(want)), 'no more than there is')
    if not bad:
        w.check(len(out[0]) == b, 'as many as asked for')
        for row in out[0]:
            w.check(w.Or(*[same(w, row, v) for v in want.values()]),
                    'of what was put in')


def every_slot(w, log, size):
    w.check(all(lo == 0 and hi == size for lo, hi, v in log),
            'every slot may be drawn')


def random_slots(w, size, adds):
    """without indices, every sample goes to a slot drawn from all of them"""
    R = w.z('learn.random_samples.Reservoir')
    r = R(size)
    seen, log = [], []
    with w.chance(log):
        for k, n in enumerate(adds):
            x = some(w, 'x%d' % k, n)
            r.add(x)
            seen.extend(x)
    got = r.get()
    every_slot(w, log, size)
    w.check(1 <= len(got) <= min(size, len(seen)), 'how many')
    for row in got:
        w.check(w.Or(*[same(w, row, v) for v in seen]), 'samples of the stream')
    w.check(w.Or(*[same(w, row, seen[-1]) for row in got]),
            'the latest is there')


def multiplexed(w, size, adds):
    """rows of all features belong together"""
    R = w.z('learn.random_samples.MultiplexedReservoir')
    r = R(size)
    seen, log = [], []
    with w.chance(log):
        for k, n in enumerate(adds):
            x, y = some(w, 'x%d' % k, n), some(w, 'y%d' % k, n, 1)
            r.add(dict(a=x, b=y))
            seen.extend(zip(x, y))
    got = r.get()
    every_slot(w, log, size)
    w.check(set(got) == {'a', 'b'}, 'features')
    w.check(len(got['a']) == len(got['b']), 'as many of each')
    for p, q in zip(got['a'], got['b']):
        w.check(w.Or(*[w.And(same(w, p, x), same(w, q, y)) for x, y in seen]),
                'of one sample')
    w.check(w.raises(ValueError, lambda: r.add(dict(a=some(w, 'z', 1)))),
            'all features each time')


def parallel(w, size, sizes, switches):
    """threads may add at the same time"""
    R = w.z('learn.random_samples.Reservoir')
    r = R(size)
    xs = [some(w, 'x%d' % k, n, 1) for k, n in enumerate(sizes)]
    at, k = [], 0
    for n in sizes:
        at.append(np.arange(k, k + n) % size)
        k += n

    def add(k):
        return lambda: r.add(xs[k], indices=at[k])
    sched.interleave(w, [add(k) for k in range(len(sizes))], FILES, switches,
                     60)
    taken = {}
    for x, i in zip(xs, at):
        for row, j in zip(x, i):
            taken.setdefault(int(j), []).append(row)
    got = r.get()
    w.check(len(got) == len(taken), 'how many')
    for row, j in zip(got, sorted(taken)):
        w.check(w.Or(*[same(w, row, v) for v in taken[j]]),
                'a sample that was put there')


def parallel_multiplexed(w, sizes, switches):
    """threads may add to a reservoir of several features at the same time"""
    R = w.z('learn.random_samples.MultiplexedReservoir')
    r = R(2)
    xs = [some(w, 'x%d' % k, n, 1) for k, n in enumerate(sizes)]

    def add(k):
        return lambda: r.add(dict(a=xs[k], b=xs[k] * 2))
    log = []
    with w.chance(log):
        sched.interleave(w, [add(k) for k in range(len(sizes))], FILES,
                         switches, 80)
    seen = [row for x in xs for row in x]
    got, other = r.get()['a'], r.get()['b']
    slots = {int(w.concretely(v)) for lo, hi, v in log}
    w.check(len(got) == len(slots), 'nothing that was added is lost')
    w.check(len(other) == len(got), 'as many of each')
    for row, o in zip(got, other):
        w.check(same(w, o, row * 2), 'of one sample')
        w.check(w.Or(*[same(w, row, v) for v in seen]), 'samples of the stream')


def stream(w, chunks, cols):
    xs = [some(w, 'x%d' % k, n, cols) for k, n in enumerate(chunks)]
    return xs, [x for c in xs for x in c]


def graph(make, chunks):
    from featureflow.extractor import Node, Graph

    class Source(Node):
        def _process(self, data):
            for c in data:
                yield c

    class Sink(Node):
        def _process(self, data):
            out.append(data)
            yield data
    out = []
    src = Source()
    node = make(src)
    Graph(src=src, node=node, sink=Sink(needs=node)).process(src=chunks)
    return out


def shuffled(w, size, chunks, multi):
    """nothing comes out before the end of the stream"""
    N = w.z('learn.ShuffledSamples')
    xs, seen = stream(w, chunks, 2)
    with w.chance():
        out = graph(lambda s: N(nsamples=size, multiplexed=multi, needs=s),
                    [dict(a=x, b=x * 2) for x in xs] if multi else xs)
    w.check(len(out) == 1, 'once, when all is seen')
    a = out[0]['a'] if multi else out[0]
    w.check(1 <= len(a) <= min(size, len(seen)), 'how many')
    for i, row in enumerate(a):
        w.check(w.Or(*[same(w, row, v) for v in seen]), 'of the stream')
        if multi:
            w.check(same(w, out[0]['b'][i], row * 2), 'belong together')


def sampler(w, size, chunks, unit):
    """reservoir sampling: sample i of the stream takes the slot which is
    drawn from i + 1 equally likely ones, if there is such a slot"""
    N = w.z('learn.ReservoirSampler')
    xs, seen = stream(w, chunks, 1)
    log = []
    with w.chance(log):
        out = graph(lambda s: N(nsamples=size, needs=s),
                    [series(w, x) for x in xs] if unit else xs)
    w.check(len(out) == 1, 'once, when all is seen')
    got = list(out[0])
    w.check(len(got) == min(size, len(seen)), 'how many')
    for row in got:
        w.check(w.Or(*[same(w, row, v) for v in seen]), 'of the stream')
    if len(seen) <= size:
        # every one of them, in any order
        for v in seen:
            n = sum(w.ite(same(w, row, v), 1, 0) for row in got)
            m = sum(w.ite(same(w, row, v), 1, 0) for row in seen)
            w.check(n == m, 'all of them')
    else:
        w.check(len(log) == len(seen) - size, 'one draw for each further one')
        slots = list(seen[:size])
        for i, (lo, hi, v) in enumerate(log):
            w.check(w.And(lo == 0, hi == size + i + 1),
                    'all of the samples so far are equally likely')
            if w.concretely_bool(v < size):
                slots[int(w.concretely(v))] = seen[size + i]
        for row, v in zip(got, slots):
            w.check(same(w, row, v), 'the samples that were drawn')
    if unit:
        w.check(isinstance(out[0], w.z('core.ArrayWithUnits')), 'units')
        w.check(isinstance(out[0].dimensions[0],
                           w.z('core.IdentityDimension')), 'no longer a time')


def infinite(w, sizes, size, parallel, keep, n_rounds):
    """samples of all documents, again and again"""
    mod = w.z('learn.random_samples')
    xs = [some(w, 'x%d' % k, n, 1) for k, n in enumerate(sizes)]
    total = sum(len(x[keep]) for x in xs)

    class Database(object):
        def iter_ids(self):
            return iter(range(len(xs)))

    class Sound(object):
        database = Database()

    def feature(_id=None, persistence=None):
        w.check(persistence is Sound, 'of these documents')
        return series(w, xs[_id])

    class Pool(object):
        """threads may take turns in any order"""

        def __init__(self, n=None):
            pass

        def imap_unordered(self, f, items):
            left = list(items)
            out = []
            while left:
                k = w.pick('turn%d' % next(turns), len(left))
                out.append(f(left.pop(k)))
            return iter(out)

        map = imap_unordered
    turns = itertools.count()
    node = mod.InfiniteSampler(nsamples=size, parallel=parallel,
                               feature_filter=lambda x: x[keep])
    seen = [v for x in xs for v in x[keep]]
    old, mod.ThreadPool = mod.ThreadPool, Pool
    try:
        rounds = node._process((Sound, feature))
        for _ in range(n_rounds):
            log = []
            with w.chance(log):
                got = next(rounds)
            w.check(1 <= len(got) <= size, 'how many')
            for row in got:
                w.check(w.Or(*[same(w, row, v) for v in seen]),
                        'samples of the documents')
            for x in xs:
                n = len(x[keep])
                want = sum(max(1, size * n // total) for y in xs
                           if len(y[keep]) == n) if n else 0
                w.check(len([1 for lo, hi, v in log
                             if lo == 0 and hi == n]) == want,
                        'as many as its share of all, and one at least')
            every_slot(w, [e for e in log
                           if e[1] not in [len(x[keep]) for x in xs]], size)
            w.check(isinstance(got, w.z('core.ArrayWithUnits')), 'units')
    finally:
        mod.ThreadPool = old


def sizes(w):
    R = w.z('learn.random_samples.Reservoir')
    n = w.int('n', -5, 5)
    w.check(w.iff(w.raises(ValueError, lambda: R(n)), n <= 0), 'positive')
    w.check(w.raises(ValueError, lambda: R(1.5)), 'whole')
    r = R(3)
    x = some(w, 'x', 2)
    w.check(w.raises(ValueError, lambda: r.add(x, indices=np.array([1]))),
            'one index for each')


HARNESSES = [
    Harness('reservoir', reservoir, world_a,
            [(2, (1, 2), False), (3, (2, 1), True), (1, (2,), False),
             (2, (2, 0), True)],
            bounds='up to 3 slots, up to 3 samples in 2 rounds'),
    Harness('random_slots', random_slots, world_a, [(2, (1, 2)), (3, (3,))],
            bounds='up to 3 slots, 3 samples, every draw'),
    Harness('multiplexed', multiplexed, world_a, [(2, (2, 1))],
            bounds='2 slots, 3 samples, every draw'),
    Harness('parallel', parallel, world_a,
            [(4, (1, 2), 2), (3, (2, 2), 2), (3, (1, 1, 1), 2)],
            bounds='2 or 3 threads, 2 preemptions at any line'),
    Harness('parallel_multiplexed', parallel_multiplexed, world_a,
            [((1, 1), 1)], bounds='2 threads, a preemption at any line'),
    Harness('shuffled', shuffled, world_a, [(2, (1, 2), False),
                                            (2, (2, 1), True)],
            bounds='2 slots, streams of 3 samples in 2 chunks'),
    Harness('sampler', sampler, world_a,
            [(2, c, u) for c in ((1,), (2,), (1, 1), (3,), (1, 2), (4,),
                                 (3, 1), (1, 3), (2, 2), (1, 1, 1, 1))
             for u in (False, True)] + [(1, (3,), False), (3, (2, 3), False)],
            bounds='up to 3 slots, streams of up to 5 samples in up to 4 '
            'chunks, every draw'),
    Harness('infinite', infinite, world_a,
            [((2, 1), 3, False, slice(None), 1),
             ((1, 0), 2, False, slice(None), 3),
             ((3, 2), 3, True, slice(1, None), 1),
             ((3, 2), 3, False, slice(1, None), 1),
             ((1, 3), 4, True, slice(2), 1)],
            bounds='2 documents of up to 3 samples, up to 4 slots, 3 rounds, '
            'every draw', stubs=['documents']),
    Harness('sizes', sizes, world_a, bounds='sizes from -5 to 5'),
]
ASSUMPTIONS = ['threads are preempted between lines']
