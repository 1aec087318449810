"""C11: the index finds the nearest codes, and nothing gets lost or mixed up."""
import contextlib
import itertools
import multiprocessing
import os
import numpy as np
from symz import store
from symz.harness import Harness
from symz.sched import interleave
from symz.worlds import world_s
from .c10 import bits_of

ORDERS = list(itertools.permutations((65, 80, 97)))


def DB(w):
    return w.z('index.hammingdb.HammingDb')


def code(w, name, words):
    """the bytes of a code, and its words"""
    a = w.array(name, (words,), dtype=np.uint64)
    return a.tobytes(), a


def distance(w, a, b, words):
    t = 0
    for k in range(words):
        x, y = (w_elem(w, v, k) for v in (a, b))
        t = bits_of(w, x ^ y) + t
    return t


def w_elem(w, a, k):
    from symz import anp
    return anp.raw(a)[k] if w.symbolic else a[k]


def nearest(w, words, n, limit, sort, multi, order=0):
    """the nearest codes, whichever instance they were added by"""
    size = 8 * words
    with store.disk(w, ORDERS[order]) as (path, _):
        db = DB(w)(path, code_size=size)
        other = DB(w)(path, code_size=size)
        cs = []
        for k in range(n):
            b, a = code(w, 'c%d' % k, words)
            cs.append(a)
            (other if w.pick('by%d' % k, 2) else db).append(
                b, b'record %d' % k)
        q, qa = code(w, 'q', words)
        got = [bytes(r) for r in db.search(q, limit, multithreaded=multi,
                                           sort=sort)]
        w.check(len(db) == n and len(other) == n, 'size')
        w.check(len(got) == min(n, limit), 'as many as asked for')
        ks = [int(r.split()[1]) for r in got]
        w.check(len(set(ks)) == len(ks) and all(
            got[i] == b'record %d' % k for i, k in enumerate(ks)),
            'different records')
        d = [distance(w, qa, c, words) for c in cs]
        w.check(w.And(True, *[d[i] <= d[j] for i in ks for j in range(n)
                              if j not in ks]), 'none of the others is nearer')
        if sort:
            w.check(w.And(True, *[d[i] <= d[j] for i, j in zip(ks, ks[1:])]),
                    'nearest first')
        again = [bytes(r) for r in DB(w)(path, code_size=None).search(
            q, n + 1, sort=True)]
        w.check(sorted(again) == [b'record %d' % k for k in range(n)],
                'everything is found again')
        e = [d[int(r.split()[1])] for r in again]
        w.check(w.And(True, *[i <= j for i, j in zip(e, e[1:])]),
                'nearest first')


@contextlib.contextmanager
def threads(w, n):
    """a machine with n processors"""
    m = w.z('index.hammingdb')
    saved = [(o, k, getattr(o, k)) for o in (m, multiprocessing, os)
             for k in ('cpu_count',) if hasattr(o, k)]
    try:
        for o, k, _ in saved:
            setattr(o, k, lambda: n)
        yield
    finally:
        for o, k, v in saved:
            setattr(o, k, v)


def crowd(w, n, limit, cpus, random):
    """more codes than threads to look at them"""
    with threads(w, cpus), store.disk(
            w, [60 + (5 * k) % 23 for k in range(23)]) as (path, _):
        db = DB(w)(path, code_size=8)
        codes = [bytes([255] * k + [0] * (8 - k)) for k in range(n)]
        for k, c in enumerate(codes):
            db.append(c, b'record %d' % k)
        # any code which leaves no doubt
        near = w.pick('near', n)
        if random:
            q, got = db.random_search(limit, multithreaded=True, sort=True)
            q = bytes(q)
            w.check(q in codes, 'one of the codes')
            near = codes.index(q)
            qa = w.constant(np.frombuffer(q, np.uint64))
        else:
            e = w.array('q', (1,), dtype=np.uint64)
            w.assume(w_elem(w, e, 0) & 0xf8f8f8f8f8f8f8f8 == 0)
            flip = np.frombuffer(codes[near], np.uint64)
            qa = e ^ w.constant(flip)
            w.assume(bits_of(w, w_elem(w, e, 0)) <= 3)
            got = db.search(qa.tobytes(), limit, multithreaded=True, sort=True)
        got = [bytes(r) for r in got]
        w.check(len(got) == min(n, limit), 'as many as asked for')
        ks = [int(r.split()[1]) for r in got]
        w.check(len(set(ks)) == len(ks), 'different records')
        w.check(ks[0] == near, 'the nearest one')
        d = [distance(w, qa, w.constant(np.frombuffer(c, np.uint64)), 1)
             for c in codes]
        w.check(w.And(True, *[d[i] <= d[j] for i, j in zip(ks, ks[1:])]),
                'nearest first')
        w.check(w.And(True, *[d[i] <= d[j] for i in ks for j in range(n)
                              if j not in ks]), 'none of the others is nearer')


def anything(w, words, n):
    """a random search is for one of the codes"""
    size = 8 * words
    with store.disk(w, ORDERS[0][:n] + (70,)) as (path, _):
        db = DB(w)(path, code_size=size)
        if not n:
            w.check(w.raises(ValueError, lambda: db.random_search(2)),
                    'nothing to search for')
            w.check(list(db.search(b'a' * size, 3)) == [], 'nothing found')
            w.check(list(db.search(b'a' * size, 3, multithreaded=True)) == [],
                    'nothing found')
            return
        cs = []
        for k in range(n):
            b, a = code(w, 'c%d' % k, words)
            cs.append(b)
            db.append(b, 'record %d' % k)
        q, results = db.random_search(1)
        got = [bytes(r) for r in results]
        w.check(w.Or(*[q == c for c in cs]), 'one of the codes')
        k = int(got[0].split()[1])
        w.check(q == cs[k], 'the nearest one is itself')


def sizes(w, size, kind):
    """codes have one size, for good"""
    with store.disk(w) as (path, _):
        if size % 8:
            w.check(w.raises(ValueError, lambda: DB(w)(
                path, code_size=size)), 'whole words')
            return
        w.check(w.raises(ValueError, lambda: DB(w)(
            path, code_size=None)), 'a size is needed')
        db = DB(w)(path, code_size=size, writeonly=kind == 'writeonly')
        n = w.pick('n', 2 * size + 2)
        c = {'text': 'a' * n, 'bytes': b'a' * n, 'writeonly': b'b' * n,
             'wide': 'é' * (n // 2) + 'a' * (n % 2)}[kind]
        bad = w.raises(ValueError, lambda: db.append(c, b'x'))
        w.check(bad == (n != size), 'only codes of this size')
        w.check(len(db) == (n == size), 'nothing else is added')
        q = b'a' * n
        if kind == 'writeonly':
            w.check(w.raises(RuntimeError, lambda: list(
                db.search(b'a' * size, 1))), 'only writes')
            db = DB(w)(path, code_size=size)
        bad = w.raises(ValueError, lambda: list(db.search(q, 1)))
        w.check(bad == (n != size), 'only codes of this size')
        w.check(DB(w)(path, code_size=None).code_size == size, 'kept')
        w.check(w.raises(ValueError, lambda: DB(w)(
            path, code_size=size + 8)), 'another size')
        back = [bytes(x) for x in DB(w)(path, code_size=size).search(
            b'c' * size, 3)]
        w.check(back == [b'x'] * (n == size), 'what was added')


def failing(w, words, n):
    """what could not be stored cannot be found"""
    size = 8 * words
    with store.disk(w, [65, 80, 97, 70, 75], real=False) as (path, files):
        db = DB(w)(path, code_size=size)
        start = files.commits
        bad = [w.concretely_bool(w.bool('f%d' % k)) for k in range(n)]
        files.fails = lambda k: k >= start and bad[k - start]
        cs = []
        for k in range(n):
            b, a = code(w, 'c%d' % k, words)
            cs.append(a)
            try:
                db.append(b, b'record %d' % k)
                w.check(not bad[k], 'failures are told')
            except store.Crash:
                w.check(bad[k], 'otherwise it is stored')
        files.fails = lambda k: False
        q, qa = code(w, 'q', words)
        want = [b'record %d' % k for k in range(n) if not bad[k]]
        for d in (db, DB(w)(path, code_size=size)):
            got = [bytes(r) for r in d.search(q, n, sort=True)]
            w.check(sorted(got) == want, 'exactly what was stored')
            w.check(len(d) == len(want), 'size')


def together(w, words, n, multi, switches=1):
    """one thread adds, another one searches"""
    size = 8 * words
    with store.disk(w, [65, 80, 97, 70, 75], real=False) as (path, files):
        db = DB(w)(path, code_size=size)
        codes = [bytes([1 << k] * size) for k in range(n)]
        far = b'\xff' * size
        for k in range(n):
            db.append(codes[k], b'record %d' % k)
        found, errors = [], []

        def add():
            db.append(far, b'far')

        def search():
            try:
                found.append([bytes(r) for r in db.search(
                    codes[0], n + 1, multithreaded=multi, sort=True)])
            except Exception as e:
                errors.append(e)
        interleave(w, [add, search], ['zounds/index/hammingdb.py'],
                   switches, 90)
        w.check(not errors, 'no search fails')
        old = [b'record %d' % k for k in range(n)]
        w.check(found and found[0][:1] == old[:1] and (
            sorted(found[0]) in (old, sorted(old + [b'far']))),
            'what was there before or after')
        got = [bytes(r) for r in db.search(far, n + 2, sort=True)]
        w.check(got[:1] == [b'far'] and sorted(got[1:]) == old,
                'everything is there afterwards')


class Doc(object):
    def __init__(self, _id):
        self._id = _id


class Docs(object):
    """a class of documents and one of its features"""
    key, version = 'codes', 'v1'

    def __init__(self, w, events=None):
        self.w, self.data = w, {}
        if events is not None:
            self.event_log = events

    def put(self, _id, codes, f, d):
        w = self.w
        T = w.z('timeseries.TimeDimension')
        I = w.z('core.IdentityDimension')
        self.data[_id] = w.z('core.ArrayWithUnits')(
            codes, [T(w.td(f), w.td(d)), I()])

    def __iter__(self):
        return iter([Doc(_id) for _id in sorted(self.data)])

    def __call__(self, _id=None, persistence=None):
        return Doc(_id) if persistence is None else self.data[_id]


class Feature(object):
    key, version = 'codes', 'v1'

    def __init__(self, docs):
        self.docs = docs

    def __call__(self, _id=None, persistence=None):
        assert persistence is self.docs
        return self.docs.data[_id]


def index_of(w, docs, path, **k):
    return w.z('index.HammingIndex')(docs, Feature(docs), path=path, **k)


def slices(w, words, counts, extra):
    """what is found is where it was"""
    with store.disk(w, [65, 80, 97, 70, 75]) as (path, files):
        docs = Docs(w)
        f = w.int('f', 1, 10 ** 12)
        d = w.int('d', 1, 10 ** 12)
        want = []
        for i, n in enumerate(counts):
            a = w.array('a%d' % i, (n, words), dtype=np.uint64)
            docs.put('doc%d' % i, a, f, d)
            for k in range(n):
                want.append(('doc%d' % i, k, a[k]))
        more = dict(which=lambda doc, ts: doc._id + '!',
                    start=lambda doc, ts: w.ps(ts.start) >= f) if extra else {}
        index = index_of(w, docs, path, db_size_bytes=12345856, **more)
        w.check(len(index) == 0, 'nothing yet')
        if len(counts) == 1:
            index.add('doc0')
        else:
            index.add_all()
        w.check(len(index) == len(want), 'every slice of every document')
        w.check(index.hamming_db.env.info()['map_size'] == 12345856,
                'of the size asked for')
        q = w.array('q', (words,), dtype=np.uint64)
        for query in (q, q.tobytes()):
            res = index.search(query, len(want), sort=True)
            w.check(res.query == q.tobytes(), 'the query')
            res = list(res)
            w.check(len(res) == len(want), 'as many as asked for')
            dist, seen = [], []
            for r in res:
                w.check(len(r) == (3 if extra else 2), 'id and time')
                hits = [i for i, (_id, k, c) in enumerate(want)
                        if i not in seen and r[0] == _id and w.
                        concretely_bool(w.And(w.ps(r[1].start) == k * f,
                                              w.ps(r[1].duration) == d))]
                w.check(len(hits) == 1, 'one of the slices')
                _id, k, c = want[hits[0]]
                seen.append(hits[0])
                dist.append(distance(w, q, c, words))
                if extra:
                    w.check(r[2]['which'] == _id + '!' and
                            bool(r[2]['start']) == (k > 0), 'further data')
            w.check(w.And(True, *[i <= j for i, j in zip(dist, dist[1:])]),
                    'nearest first')
        for sort in (True, False):
            res = index.random_search(len(want), sort=sort)
            qa = w.np.frombuffer(res.query, np.uint64)
            w.check(w.Or(*[w.And(*[w_elem(w, c, k) == w_elem(w, qa, k)
                                   for k in range(words)])
                           for _, _, c in want]), 'for one of the codes')
            dist = []
            for r in res:
                ks = [c for _id, k, c in want if r[0] == _id and w.
                      concretely_bool(w.ps(r[1].start) == k * f)]
                w.check(len(ks) == 1, 'one of the slices')
                dist.append(distance(w, qa, ks[0], words))
            w.check(len(dist) == len(want), 'as many as asked for')
            if sort:
                w.check(w.And(True, *[i <= j for i, j in zip(
                    dist, dist[1:])]), 'nearest first')


def queries(w, n, dtype):
    """unpacked codes and their bytes"""
    with store.disk(w) as (path, _):
        index = index_of(w, Docs(w), path)
        a = w.array('a', (n,), 0, 1, np.dtype(dtype))
        b = index.encode_query(a)
        w.check(len(b) == -(-n // 8), 'eight bits to a byte')
        back = index.decode_query(b)
        w.check(len(back) == 8 * len(b), 'eight bits to a byte')
        w.check(w.And(True, *[
            back[i] == (w_elem(w, a, i) if i < n else 0)
            for i in range(len(back))]), 'the same bits')
        w.check(index.encode_query(b) == b, 'bytes are codes')
        w.check(w.raises(ValueError, lambda: index.encode_query(
            w.array('x', (8,), 0, 1, np.int32))), 'no codes')
        w.check(w.raises(ValueError, lambda: index.encode_query(
            w.array('y', (8,), 0, 1))), 'no codes')


class Log(object):
    """events, which may be read again"""

    def __init__(self, live):
        self.events, self.live = [], live

    def subscribe(self, last_id=b'', raise_when_empty=False):
        if isinstance(last_id, str):
            last_id = last_id.encode()
        for t, data in self.events:
            if t > last_id:
                yield (t.decode() if self.live else t), data


def event(k, _id, name='codes', version='v1'):
    import json
    return b'0x%d' % k, json.dumps(dict(_id=_id, name=name, version=version))


def events(w, counts, live):
    """whenever it stops, it goes on from there"""
    with store.disk(w, [60 + k for k in range(30)], real=False) as (
            path, files):
        log = Log(live)
        docs = Docs(w, log)
        mine = []
        for i, n in enumerate(counts):
            a = np.array([2 ** (8 * i + k) for k in range(n)], np.uint64)
            docs.put('doc%d' % i, w.constant(a.reshape(n, 1)), 1000, 1000)
            kind = w.pick('kind%d' % i, 3)
            mine.append(kind == 0)
            log.events.append(event(i, 'doc%d' % i, *[
                ('codes', 'v1'), ('other', 'v1'), ('codes', 'v2')][kind]))
        at = w.pick('at', 2 + 3 * sum(counts))
        files.fails = lambda k: k == at
        index = index_of(w, docs, path)
        crashed = False
        try:
            index._synchronously_process_events()
        except store.Crash:
            crashed = True
        files.fails = lambda k: False
        index.close()
        want = sorted((b'doc%d' % i, k) for i, n in enumerate(counts)
                      for k in range(n) if mine[i])
        for again in range(2):
            index = index_of(w, docs, path)
            index._synchronously_process_events()
            got = []
            if index.hamming_db is not None:
                got = sorted((_id.encode(), int(w.ps(ts.start)) // 1000)
                             for _id, ts in index.search(
                                 b'a' * 8, 100))
            w.check(sorted(set(got)) == want,
                    'every slice of every document, and no other')
            if not crashed:
                w.check(len(got) == len(want), 'once')
            if again:
                w.check(got == before, 'nothing is left to do')
            before = got
            index.close()


HARNESSES = [
    Harness('nearest', nearest, world_s,
            [(1, 3, 1, True, False), (1, 3, 2, True, False, 1),
             (1, 3, 2, False, False, 2), (2, 2, 1, False, True),
             (1, 3, 3, True, True, 3), (2, 2, 4, True, False),
             (1, 2, 2, False, True), (1, 1, 1, True, False),
             (3, 1, 5, False, False), (1, 3, 2, True, True, 5)],
            bounds='up to 3 codes of up to 3 words, any content, added by any '
            'of 2 instances'),
    Harness('crowd', crowd, world_s,
            [(5, 5, 2, False), (7, 3, 3, False), (5, 2, 4, True)],
            bounds='up to 7 codes shared by up to 4 threads, any query at a '
            'distance of up to 3 bits'),
    Harness('anything', anything, world_s, [(1, 0), (1, 2), (2, 2), (1, 3)],
            path_seconds=20, bounds='up to 3 codes of any content'),
    Harness('sizes', sizes, world_s,
            [(s, k) for s in (8, 16) for k in ('text', 'bytes', 'writeonly',
                                               'wide')] + [(12, 'bytes')],
            bounds='codes of 0 to 33 bytes'),
    Harness('failing', failing, world_s, [(1, 2), (2, 2)],
            bounds='2 appends, any of which fails'),
    Harness('together', together, world_s, [(1, 2, False), (2, 1, True)],
            bounds='2 threads preempted at any line'),
    Harness('slices', slices, world_s,
            [(1, (2,), False), (2, (1, 1), True), (1, (2, 1), True)],
            bounds='up to 2 documents of up to 2 slices; any content, any '
            'frequency and duration up to a second'),
    Harness('queries', queries, world_s,
            [(64, 'uint8'), (64, 'bool'), (8, 'bool'), (13, 'uint8')],
            bounds='up to 64 bits'),
    Harness('events', events, world_s,
            [((2, 1), False), ((1, 2), True), ((2,), True), ((0, 1), False)],
            bounds='up to 2 events for documents of up to 2 slices, one '
            'failure, at any write'),
]
ASSUMPTIONS = []
