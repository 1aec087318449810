"""
Stand-ins for what the databases of zounds are built on: an LMDB environment
(ordered keys, snapshots for readers, transactions which are committed as a
whole or not at all) and pools of workers which do their work at once.  Keys
are concrete, values may hold symbols.
"""
import contextlib
import os
import shutil
import tempfile
import time
import types


class Crash(Exception):
    """the process ends, or a write fails"""


class Files(object):
    """what is on disk: survives environments that are opened and closed"""

    def __init__(self):
        self.paths = {}
        self.commits = 0
        self.fails = lambda n: False
        self.opened = []
        self.writing = set()

    def writer(self, path):
        """one at a time"""
        while path in self.writing:
            time.sleep(.002)
        self.writing.add(path)


class Txn(object):
    def __init__(self, env, write, db=None):
        self.env, self.write, self.default = env, write, db
        if write:
            env.files.writer(env.path)
        self.data = {k: dict(v) for k, v in env.tables.items()}
        self.over = False

    def __enter__(self):
        return self

    def __exit__(self, kind, *a):
        if not self.over:
            (self.commit if kind is None else self.abort)()

    def commit(self):
        self.over = True
        if self.write:
            try:
                n = self.env.files.commits
                self.env.files.commits += 1
                if self.env.files.fails(n):
                    raise Crash('commit')
                t = self.env.tables
                t.clear()
                t.update(self.data)
            finally:
                self.env.files.writing.discard(self.env.path)

    def abort(self):
        self.over = True
        if self.write:
            self.env.files.writing.discard(self.env.path)

    def _table(self, db):
        if self.over:
            raise ValueError('the transaction is over')
        return self.data.setdefault(db if db is not None else self.default, {})

    def put(self, key, value, db=None, **k):
        if not self.write:
            raise PermissionError('read only')
        for x in (key, value):
            if isinstance(x, str):
                raise TypeError("a bytes-like object is required, not 'str'")
        if not len(key):
            raise ValueError('bad size of key')
        self._table(db)[bytes(key)] = value
        return True

    def get(self, key, default=None, db=None):
        if isinstance(key, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        return self._table(db).get(bytes(key), default)

    def delete(self, key, value=b'', db=None):
        return self._table(db).pop(bytes(key), None) is not None

    def stat(self, db=None):
        return {'entries': len(self._table(db))}

    def cursor(self, db=None):
        return Cursor(self, db if db is not None else self.default)


class Cursor(object):
    def __init__(self, txn, db):
        self.txn, self.db, self.at = txn, db, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def _keys(self):
        return sorted(self.txn._table(self.db))

    def set_range(self, key):
        ks = [k for k in self._keys() if k >= bytes(key)]
        self.at = ks[0] if ks else None
        return bool(ks)

    def first(self):
        return self.set_range(b'')

    def last(self):
        ks = self._keys()
        self.at = ks[-1] if ks else None
        return bool(ks)

    def key(self):
        return self.at if self.at is not None else b''

    def value(self):
        return self.txn._table(self.db)[self.at] if self.at is not None \
            else b''

    def item(self):
        return self.key(), self.value()

    def iternext(self, keys=True, values=True):
        at = self.at
        for k in self._keys():
            if at is None or k >= at:
                v = self.txn._table(self.db)[k]
                yield (k, v) if keys and values else (k if keys else v)

    __iter__ = iternext


class Env(object):
    def __init__(self, files, path, **k):
        self.files, self.path, self.options = files, path, k
        self.tables = files.paths.setdefault(path, {})
        self.closed = False
        files.opened.append(self)

    def open_db(self, key=None, txn=None, **k):
        return key

    def begin(self, db=None, parent=None, write=False, buffers=False):
        if self.closed:
            raise Closed('closed')
        return Txn(self, write, db)

    def reader_check(self):
        return 0

    def close(self):
        self.closed = True

    def info(self):
        return {'map_size': self.options.get('map_size', 10485760)}

    def stat(self):
        return {'entries': len(self.tables.get(None, {}))}

    def sync(self, force=False):
        pass


class Closed(Exception):
    pass


def _open(path, **k):
    return Env(current[0], path, **k)


current = [Files()]
module = types.ModuleType('lmdb')
module.open = _open
module.Error = Closed


@contextlib.contextmanager
def disk(w, ids=(), real=True):
    """an empty disk: the path of a scratch directory and what is on it.  The
    next random ids are given.  On the real code databases are real ones,
    unless they are to fail"""
    files = Files()
    path = tempfile.mkdtemp()
    keep, urandom = current[0], os.urandom
    current[0] = files
    ids = list(ids)

    def draw(n):
        return bytes([ids.pop(0)]) * n if ids else urandom(n)
    patched = []
    if not w.symbolic and not real:
        import lmdb
        patched = [(lmdb, 'open', lmdb.open)]
        lmdb.open = _open
    os.urandom = draw
    try:
        yield path, files
    finally:
        os.urandom = urandom
        current[0] = keep
        for m, n, v in patched:
            setattr(m, n, v)
        shutil.rmtree(path, ignore_errors=True)


class Results(object):
    """of a job of a pool: the work is done when somebody waits for it"""

    def __init__(self, pool, f, xs):
        self.f, self.xs, self.out, self.begun = f, xs, [], False
        pool.jobs.append(self)

    def run(self):
        if self.begun:
            return
        self.begun = True
        it = iter(self.xs)
        while True:
            try:
                x = next(it)
            except StopIteration:
                return
            except Exception as e:
                self.out.append((None, e))
                return
            try:
                self.out.append((self.f(x), None))
            except Exception as e:
                self.out.append((None, e))

    def drop(self):
        self.begun = True

    def __iter__(self):
        return self

    def __next__(self):
        self.run()
        if not self.out:
            raise StopIteration
        r, e = self.out.pop(0)
        if e is not None:
            raise e
        return r

    next = __next__

    def get(self, timeout=None):
        return list(self)

    def wait(self, timeout=None):
        self.run()


class One(Results):
    def get(self, timeout=None):
        return list(self)[0]


class Pool(object):
    """works through its jobs in order, when somebody waits for them"""

    def __init__(self, processes=None, *a, **k):
        self.jobs, self.closed = [], False

    def _job(self, f, xs, kind=Results):
        if self.closed:
            raise ValueError('Pool not running')
        return kind(self, f, xs)

    def map(self, f, xs, chunksize=None):
        return self._job(f, list(xs)).get()

    def imap(self, f, xs, chunksize=1):
        return self._job(f, xs)

    imap_unordered = imap

    def map_async(self, f, xs, *a, **k):
        return self._job(f, list(xs))

    def starmap(self, f, xs, chunksize=None):
        return self.map(lambda x: f(*x), xs)

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, *a, **k):
        return self._job(lambda x: f(*args, **kwds), [0], One)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        for j in self.jobs:
            j.drop()

    def join(self):
        if not self.closed:
            raise ValueError('Pool is still running')
        for j in self.jobs:
            j.run()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def multiprocessing(cores=2):
    import multiprocessing as real
    m = types.ModuleType('multiprocessing')
    m.__dict__.update({k: v for k, v in real.__dict__.items()
                       if not k.startswith('__')})
    m.cpu_count = lambda: cores
    m.Pool = Pool
    d = types.ModuleType('multiprocessing.dummy')
    d.Pool = Pool
    p = types.ModuleType('multiprocessing.pool')
    p.Pool = p.ThreadPool = Pool
    m.dummy, m.pool = d, p
    return {'multiprocessing': m, 'multiprocessing.dummy': d,
            'multiprocessing.pool': p}
