"""C23: datasets yield what there is, and ingesting processes each item."""
import contextlib
import io
import json
import os
import re
import shutil
import tarfile
import tempfile
import time
from urllib.parse import urlparse, parse_qs
import requests
from symz.harness import Harness
from symz.worlds import world_s


class Down(Exception):
    """the network fails"""


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp()
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


@contextlib.contextmanager
def network(answer):
    """answer(url, prepared request) -> (status, body or file, headers)"""
    send, sleep = requests.Session.send, time.sleep

    def fake(self, req, **k):
        status, body, headers = answer(req.url, req)
        r = requests.Response()
        r.status_code, r.url, r.request = status, req.url, req
        if isinstance(body, bytes):
            headers = dict({'Content-Length': str(len(body))}, **headers)
            body = io.BytesIO(body)
        r.headers.update(headers)
        r.raw = body
        r.encoding = 'utf-8'
        return r
    requests.Session.send = fake
    time.sleep = lambda s: None
    try:
        yield
    finally:
        requests.Session.send, time.sleep = send, sleep


# ------------------------------------------------------------------ ingest

class Doc(object):
    """where documents go: a log of what was done, which processes share"""
    w = log = flags = None

    @classmethod
    def _flag(cls, name, _id):
        return bool(cls.w.concretely_bool(
            cls.flags[name + _id.rsplit('/', 1)[1]]))

    @classmethod
    def exists(cls, _id):
        if cls._flag('unknown', _id):
            raise Down('exists')
        return cls._flag('exists', _id)

    @classmethod
    def process(cls, meta=None, _id=None):
        with open(cls.log, 'a') as f:
            f.write('%s %d\n' % (_id, meta.number))
        if cls._flag('fails', _id):
            raise Down('process')


def ingest(w, n, mode, skip, without):
    """each item once, whatever happens to the others"""
    A = w.z('soundfile.AudioMetaData')
    f = w.z('datasets.ingest.ingest')
    ends = w.int('ends', 0, n)
    Doc.w = w
    # decided when somebody asks
    Doc.flags = {f + str(k): w.bool(f + str(k)) for k in range(n)
                 for f in ('unknown', 'exists', 'fails')}
    urls = ['http://example.com/%d' % k for k in range(n)]

    def items():
        for k, u in enumerate(urls):
            if bool(ends == k):
                raise Down('dataset')
            uri = '/a/file' if k == without else requests.Request('GET', u)
            yield A(uri=uri, number=k)
    with scratch() as path:
        Doc.log = os.path.join(path, 'log')
        open(Doc.log, 'w').close()
        args = {} if skip is None else dict(skip_if_exists=skip)
        if mode:
            args.update({mode: True, 'cores': 2})
        bad = w.raises(Down, lambda: f(items(), Doc, **args))
        done = sorted(open(Doc.log).read().split('\n')[:-1])
    m = int(w.concretely(ends))
    w.check(bad == (m < n), 'a dataset that fails is told')
    want = []
    for k in range(m):
        if k == without:
            continue
        if skip in (None, True) and (Doc._flag('unknown', urls[k]) or
                                     Doc._flag('exists', urls[k])):
            continue
        want.append('%s %d' % (urls[k], k))
    w.check(done == want, 'each item that is not there yet, once')


# --------------------------------------------------------------- downloads

class Body(object):
    """a download of unknown size that may break off"""

    def __init__(self, w, data, size, fault, on_fault):
        self.w, self.data, self.size = w, data, size
        self.fault, self.on_fault = fault, on_fault
        self.at = self.reads = 0

    def read(self, n=-1):
        if bool(self.fault == self.reads):
            self.on_fault()
            raise Down('read')
        self.reads += 1
        left = self.size - self.at
        if n is None or n < 0 or bool(left < n):
            n = int(self.w.concretely(left))
        out = self.data[self.at:self.at + n]
        self.at += n
        return out


def local_file(w, top, status):
    """only complete files count as downloaded"""
    f = w.z('datasets.util.ensure_local_file')
    url = 'http://example.com/files/set.tar.gz?version=2'
    data = bytes(range(1, 200))
    size = w.int('size', 0, top)
    fault = w.int('fault', -1, top + 2)
    log = []

    def answer(broken, where, snap):
        def a(u, req):
            log.append(u)
            n = int(w.concretely(size))
            if broken == 'connect':
                raise Down('get')
            if broken and status != 200:
                return status, b'sorry', {}
            body = Body(w, data, n, fault if broken else -1,
                        lambda: shutil.copytree(where, snap))
            return 200, body, {'Content-Length': str(n)}
        return a
    with scratch() as path:
        where, snap = os.path.join(path, 'a'), os.path.join(path, 'b')
        os.mkdir(where)
        how = 'connect' if status == 0 else 'read'
        with network(answer(how, where, snap)):
            try:
                p = f(url, where, chunksize=4)
                broke = False
            except Exception:
                broke = True
        n = int(w.concretely(size))
        if status != 200:
            w.check(broke, 'failures are told')
        for d in (where, snap):
            if not os.path.exists(d):
                continue
            with network(answer(False, None, None)):
                k = len(log)
                p = f(url, d, chunksize=4)
                w.check(p == os.path.join(d, 'set.tar.gz'), 'name')
                w.check(open(p, 'rb').read() == data[:n], 'complete')
                w.check(len(log) - k == (1 if broke else 0),
                        'downloaded when it is needed')
                k = len(log)
                w.check(f(url, d, chunksize=4) == p and len(log) == k,
                        'and not again')


def cache(w, n, meta):
    """a local copy of each item of a dataset, in order"""
    C = w.z('datasets.DataSetCache')
    A = w.z('soundfile.AudioMetaData')
    urls = ['http://example.com/%d?x=%d' % (k // 2, k) for k in range(n)]
    bodies = {u: bytes([65 + k]) * 1500 for k, u in enumerate(urls)}
    items = [requests.Request('GET', u, headers={'Range': 'bytes=0-'})
             for u in urls]
    if meta:
        items = [A(uri=r) for r in items]
    bad = [w.int('fault%d' % k, -1, 4) for k in range(n)]
    kind = w.pick('kind', 3)
    log = []

    def answer(broken, where, snap):
        def a(u, req):
            log.append(u)
            k = urls.index(u)
            w.check(req.headers.get('Range') == 'bytes=0-', 'as asked for')
            if broken and kind == 1 and bool(bad[k] == 0):
                return 503, b'busy', {}
            if broken and kind == 2 and bool(bad[k] == 0):
                raise Down('get')
            body = Body(w, bodies[u], 1500,
                        bad[k] if broken and kind == 0 else -1,
                        lambda: shutil.copytree(where, snap))
            return 200, body, {'Content-Length': '1500'}
        return a
    with scratch() as path:
        where, snap = os.path.join(path, 'a'), os.path.join(path, 'b')
        with network(answer(True, where, snap)):
            got, broke = [], False
            try:
                for p in C(where, items):
                    w.check(open(p, 'rb').read() == bodies[urls[len(got)]],
                            'in order')
                    got.append(p)
            except Exception:
                broke = True
            w.check(broke == (len(got) < n), 'failures are told')
        for d in (where, snap):
            if not os.path.exists(d):
                continue
            with network(answer(False, None, None)):
                del log[:]
                again = list(C(d, items))
                w.check([open(p, 'rb').read() for p in again] ==
                        [bodies[u] for u in urls], 'all of them, in order')
                w.check(log == urls[len(got):], 'only what is missing')


# ---------------------------------------------------------------- datasets

def freesound(w, pages, top):
    """as many results as asked for, or all there are"""
    F = w.z('datasets.FreeSoundSearch')
    n = w.int('n', 0, top)
    sizes = [w.int('page%d' % k, 0, 2) for k in range(pages)]
    log = []
    channels, rates = (2, None, 1), (44100., 11025., None)

    def answer(u, req):
        p = urlparse(u)
        q = parse_qs(p.query)
        w.check(q.get('token') == ['KEY'], 'with the key')
        log.append(p.path)
        m = re.match('.*/apiv2/sounds/([0-9]+)$', p.path)
        if m:
            i = int(m.group(1))
            d = dict(id=i, username='someone', samplerate=rates[i % 3],
                     channels=channels[i % 3],
                     license='free', description='sound %d' % i,
                     tags=['a', str(i)],
                     previews={'preview-hq-ogg': 'http://x.com/%d.ogg' % i})
        else:
            if p.path.endswith('/page'):
                k = int(q['number'][0])
            else:
                w.check(q.get('query') == ['guitar'], 'what is looked for')
                k = 0
            c = int(w.concretely(sizes[k]))
            nxt = 'http://www.freesound.org/page?number=%d' % (k + 1)
            d = dict(results=[{'id': 10 * k + j} for j in range(c)],
                     next=nxt if k + 1 < pages else None)
        return 200, json.dumps(d).encode(), {}
    with network(answer):
        m = int(w.concretely(n))
        got = list(F('KEY', 'guitar', n_results=m))
    every = [10 * k + j for k in range(pages)
             for j in range(int(w.concretely(sizes[k])))]
    want = every[:m]
    w.check([a.description for a in got] == ['sound %d' % i for i in want],
            'results, in order')
    for a, i in zip(got, want):
        w.check(a.request.url == 'http://x.com/%d.ogg' % i, 'url')
        w.check((a.samplerate, a.channels, a.licensing, a.tags) ==
                (rates[i % 3], channels[i % 3], 'free', ['a', str(i)]),
                'metadata')
        w.check(a.web_url == 'https://freesound.org/people/someone/sounds/'
                '%d/' % i, 'page of the sound')
    w.check(len(log) <= m + pages, 'nothing is asked for again')
    w.check(w.raises(ValueError, lambda: F('', 'a')) and
            w.raises(ValueError, lambda: F('a', None)), 'arguments')


def archive(w, n):
    """the files that were asked for, with the data of their originals"""
    I = w.z('datasets.InternetArchive')
    files, want = {}, []
    stem = ['A', 'a', 'b c', 'B C']
    for k in range(n):
        name = '/%s.flac' % stem[k]
        files[name] = dict(source='original', format='Flac', title='t%d' % k)
        if k != 1:
            files[name]['artist'] = 'you'
        kind = w.pick('kind%d' % k, 4)
        if kind == 1:
            files[name]['format'] = 'Ogg Vorbis'
            want.append((name, 't%d' % k))
        if kind in (2, 3):
            files['/%s.ogg' % stem[k]] = dict(
                source='derivative', original='%s.flac' % stem[k], title='no',
                format='Ogg Vorbis' if kind == 2 else 'MP3')
            if kind == 2:
                want.append(('/%s.ogg' % stem[k], 't%d' % k))

    def answer(u, req):
        w.check(u == 'https://archive.org/details/THING&output=json', u)
        return 200, json.dumps({'files': files}).encode(), {}
    with network(answer):
        got = list(I('THING', artist='me'))
        mp3 = list(I('THING', format_filter=lambda x: x['format'] == 'MP3'))
    w.check([(a.request.url, a.title) for a in got] == [
        ('https://archive.org/download/THING' + f, t) for f, t in want],
        'files and titles')
    w.check(all(a.artist == 'me' and a.web_url ==
                'https://archive.org//details/THING' for a in got), 'extras')
    w.check([a.request.url for a in mp3] == [
        'https://archive.org/download/THING' + f for f in files
        if files[f]['format'] == 'MP3'], 'another format')
    w.check(w.raises(ValueError, lambda: I('')), 'arguments')


def drums(w, n):
    P = w.z('datasets.PhatDrumLoops')
    page, want = '<html>é', []
    for k in range(n):
        kind = w.pick('kind%d' % k, 3)
        if kind == 0:
            name = ('loop%d', 'some loop-%d', 'more/loop_%d')[k % 3] % k
            page += '<a href="/audio/wav/%s.wav">x</a>\n' % name
            want.append('http://phatdrumloops.com/audio/wav/%s.wav' % name)
        elif kind == 1:
            page += '<a href="/audio/mp3/loop%d.mp3">x</a>\n' % k

    def answer(u, req):
        return 200, page.encode('utf-8'), {'Content-Type': 'text/html'}
    with network(answer):
        got = list(P(artist='them'))
    w.check([a.request.url for a in got] == want, 'each loop, in order')
    w.check(all(a.artist == 'them' and a.web_url ==
                'http://www.phatdrumloops.com/beats.php' for a in got),
            'extras')


def nsynth(w, n):
    """each sound with its own notes, wherever they are in the archive"""
    N = w.z('datasets.NSynth')
    notes = {'s%d' % k: dict(pitch=k, samplerate=16000) for k in range(n)}
    where = w.pick('where', n + 1)
    order = list(range(n))
    order = [order.pop(w.pick('o%d' % k, n - k)) for k in range(n)]
    size = w.pick('size', 2)
    body = {k: bytes([k]) * (9 * size if k == 0 else 9) for k in order}
    names = [('v/audio/s%d.wav' % k, body[k]) for k in order]
    names.insert(where, ('v/examples.json', json.dumps(notes).encode()))
    with scratch() as path:
        p = os.path.join(path, 'nsynth-valid.jsonwav.tar.gz')
        with tarfile.open(p, 'w:gz') as t:
            d = tarfile.TarInfo('v')
            d.type = tarfile.DIRTYPE
            t.addfile(d)
            for name, b in names:
                i = tarfile.TarInfo(name)
                i.size = len(b)
                t.addfile(i, io.BytesIO(b))

        def answer(u, req):
            raise Down('not needed')
        with network(answer):
            got = list(N(path))
    w.check([a.pitch for a in got] == order, 'each sound')
    w.check([a.uri.read() for a in got] == [body[k] for k in order],
            'with its own notes')
    w.check([a.request.url for a in got] == [
        'https://magenta.tensorflow.org/datasets/nsynth/s%d' % k
        for k in order], 'urls')


def several(w, n):
    """one after another; files of a directory, but no directories"""
    C, D = w.z('datasets.CompositeDataset'), w.z('datasets.Directory')
    sizes = [w.pick('n%d' % k, 3) for k in range(n)]
    sets = [['%d %d' % (k, i) for i in range(s)] for k, s in enumerate(sizes)]
    c = C(*sets)
    want = [x for s in sets for x in s]
    w.check(list(c) == want and list(c) == want, 'everything, each time')
    c = C(*(sets + sets[:1]))
    w.check(list(c) == want + sets[0], 'also what is given twice')
    with scratch() as path:
        for k, s in enumerate(sizes):
            p = os.path.join(path, '.%d' % k if k == 1 else str(k))
            if s == 1:
                open(p, 'w').close()
            elif s == 2:
                os.mkdir(p)
        w.check(sorted(D(path)) == sorted(
            os.path.join(path, '.%d' % k if k == 1 else str(k))
            for k in range(n) if sizes[k] == 1), 'the files')


def predownload(w, n):
    P = w.z('datasets.PreDownload')
    m = w.pick('n', n)
    data = bytes(range(m))
    u = 'http://example.com/1'
    p = P(data, u)
    w.check(p.read() == data and p.url == u, 'data and url')
    A = w.z('soundfile.AudioMetaData')
    w.check(A(uri=p).request is p, 'can be asked for')
    w.check(w.raises(ValueError, lambda: P(data, '')), 'needs a url')


HARNESSES = [
    Harness('ingest', ingest, world_s,
            [(n, m, s, o) for n in (2, 3) for m in
             ('', 'multi_process', 'multi_threaded')
             for s, o in ((None, None), (True, n - 2), (False, None))
             if n == 2 or (m != 'multi_process' and o is None)],
            bounds='up to 3 items, each of which may be there already, be '
            'unable to tell, fail to be processed or have no url; a dataset '
            'that breaks off before any item'),
    Harness('local_file', local_file, world_s,
            [(9, 200), (4, 404), (4, 0)],
            bounds='files of up to 9 bytes in pieces of 4, broken off at any '
            'read, also by the end of the process'),
    Harness('cache', cache, world_s, [(2, False), (2, True), (1, True)],
            bounds='2 items of 1500 bytes, failures at any read'),
    Harness('freesound', freesound, world_s, [(1, 3), (3, 5)],
            bounds='up to 3 pages of up to 2 results, up to 5 asked for'),
    Harness('archive', archive, world_s, [(1,), (3,)],
            bounds='up to 3 originals, each with a derivative or without'),
    Harness('drums', drums, world_s, [(3,)], bounds='up to 3 links'),
    Harness('nsynth', nsynth, world_s, [(1,), (3,)],
            bounds='3 sounds and the notes in any order'),
    Harness('several', several, world_s, [(1,), (3,)],
            bounds='up to 3 datasets of up to 2 items'),
    Harness('predownload', predownload, world_s, [(4,)],
            bounds='up to 3 bytes'),
]
ASSUMPTIONS = [
    'the network is a stand-in below requests.Session.send; worker pools are '
    'stand-ins which work when somebody waits for them (real ones on replay)',
    'urls of items are different']
