"""C30: the web apps serve what there is, to those who may see it."""
import contextlib
import logging
import sys
import urllib.parse

from symz import shadow, text, wire
from symz.harness import Harness
from symz.worlds import world_b
from .c15 import fields


class Connection(object):
    """collects what is sent"""

    context = None

    def __init__(self):
        self.status, self.headers, self.body = None, None, []

    def set_close_callback(self, callback):
        pass

    def write_headers(self, start_line, headers, chunk=None, callback=None):
        assert self.status is None, 'one response for one request'
        self.status, self.headers = start_line.code, headers
        return self.write(chunk)

    def write(self, chunk, callback=None):
        import tornado.concurrent
        if chunk:
            self.body.append(chunk)
        f = tornado.concurrent.Future()
        f.set_result(None)
        return f

    def finish(self):
        pass

    @property
    def data(self):
        return b''.join(self.body)

    @property
    def cookies(self):
        return [] if self.headers is None \
            else self.headers.get_list('Set-Cookie')


@contextlib.contextmanager
def quiet():
    logs = [logging.getLogger('tornado.%s' % n)
            for n in ('access', 'application', 'general')]
    old = [l.disabled for l in logs]
    for l in logs:
        l.disabled = True
    try:
        yield
    finally:
        for l, o in zip(logs, old):
            l.disabled = o


@contextlib.contextmanager
def arguments(form):
    """the fields of a form whose values are symbolic"""
    import tornado.web
    old = tornado.web.RequestHandler._get_arguments

    def get(self, name, source, strip=True):
        if name in form and source in (self.request.body_arguments,
                                       self.request.arguments):
            return [form[name]]
        return old(self, name, source, strip)
    tornado.web.RequestHandler._get_arguments = get
    try:
        yield
    finally:
        tornado.web.RequestHandler._get_arguments = old


def request(w, web, method, uri, headers=(), body=b'', form=None):
    import tornado.httputil
    h = tornado.httputil.HTTPHeaders(dict(headers))
    if form is not None:
        h['Content-Type'] = 'application/x-www-form-urlencoded'
        if not w.symbolic:
            body = urllib.parse.urlencode(form).encode()
    c = Connection()
    r = tornado.httputil.HTTPServerRequest(
        method=method, uri=uri, headers=h, body=body, connection=c,
        version='HTTP/1.1')
    r._parse_body()
    with quiet(), text.compared():
        if form is not None and w.symbolic:
            with arguments(form):
                web(r)
        else:
            web(r)
    return c


class Trainer(object):
    def __init__(self):
        self.callbacks = []

    def register_batch_complete_callback(self, f):
        self.callbacks.append(f)

    def unregister_batch_complete_callback(self, f):
        self.callbacks.remove(f)


def make_model(log, total=11, content=b'some content'):
    """a document class with one feature"""
    class Flo(object):
        pos = 0

        def seek(self, n):
            self.pos = n

        def read(self, n=None):
            log.append(('read', self.pos, n))
            return content

    class Enc(object):
        content_type = 'application/json'

    class Feature(object):
        encoder, version = Enc, 'v'

        def __init__(self, key):
            self.key = key

        def __call__(self, **k):
            log.append(('feature', self.key))
            return Flo()

    class Model(object):
        features = {'f': Feature('f'), 'v': Feature('v')}

        def __init__(self, _id):
            log.append(('document', _id))
            self._id = _id

        class key_builder(object):
            build = staticmethod(lambda *x: x)

        class database(object):
            size = staticmethod(lambda key: total)
    return Model


def make_app(w, kind, secret, log, **extra):
    model = make_model(log)
    feature = model.features['f']
    k = dict(model=model, visualization_feature=feature,
             audio_feature=feature, secret=secret, globals={},
             locals={'touch': lambda: log.append(('touch',)) or 'touched'})
    k.update(extra)
    if kind == 'repl':
        app = w.z('ui.api.ZoundsApp')(**k)
    else:
        app = w.z('ui.training_monitor.TrainingMonitorApp')(
            trainer=Trainer(), keys_to_graph=('loss',), **k)
    R = w.z('ui.serializer.TempResult')
    if hasattr(app, 'temp'):
        app.temp['t'] = R(b'held in memory', 'text/plain')
    return app


ROUTES = {
    'repl': ('/', '/zounds/id/f', '/zounds/id/f/', '/zounds/temp/t',
             '/zounds/repl', '/zounds/repl/', '/?query=login',
             '/zounds/login/f', '/zounds/xlogin/f'),
    'monitor': ('/zounds/training', '/zounds/training/', '/zounds/graph',
                '/zounds/graph/', '/zounds/repl', '/zounds/id/f'),
}
METHODS = ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS')
BODY = b'touch()'
VARY = ('Date', 'Server')


def login(w, web, secret):
    return request(w, web, 'POST', '/zounds/login', form={'secret': secret})


def cookie_header(c):
    return '; '.join(x.split(';')[0] for x in c.cookies)


def outsider(w, kind, session):
    """without a session nothing is served, evaluated or even looked up"""
    path = w.choice('path', ROUTES[kind])
    method = w.choice('method', METHODS)
    n = 2
    secret = text.text(w, 'secret', n)
    log = []
    web = make_app(w, kind, secret, log)._make_app()
    headers = {}
    if session == 'other app':
        own = text.text(w, 'own', n)
        w.assume(w.Not(own == secret) if w.symbolic else own != secret)
        other = make_app(w, kind, own, [])._make_app()
        got = login(w, other, own)
        w.check(got.cookies, 'logging in elsewhere gives a session there')
        headers['Cookie'] = cookie_header(got)
    elif session == 'wrong secret':
        posted = text.text(w, 'posted', w.choice('length', (1, 2, 3)))
        w.assume(w.Not(posted == secret) if w.symbolic else posted != secret)
        got = login(w, web, posted)
        w.check(got.status == 401, 'a wrong secret is refused')
        w.check(not got.cookies, 'and starts no session')
    elif session == 'tampered':
        value = cookie_header(login(w, web, secret))
        i = w.choice('at', (-1, -10, len(value) // 2))
        flip = 'a' if value[i] != 'a' else 'b'
        j = i % len(value)
        headers['Cookie'] = value[:j] + flip + value[j + 1:]
    elif session == 'plain':
        headers['Cookie'] = 'user=%s; secret=x; login=1' % w.choice(
            'value', ('x', '1', '""', 'user', '2|1:0|10:1|4:user|4:eA==|aa'))
    del log[:]
    r = request(w, web, method, path, headers, BODY)
    w.check(not log, 'nothing is evaluated, nor looked up')
    allowed = (302,) if method in ('GET', 'HEAD') else (403,)
    w.check(r.status in allowed + (405,), 'refused, or sent to log in')
    if r.status == 302:
        w.check(r.headers['Location'].startswith('/zounds/login'),
                'sent to log in')
    w.check(r.status != 405 or method not in ('GET', 'POST'),
            'refused for want of a session')
    for b in (b'some content', b'held in memory', b'touched', b'script'):
        w.check(b not in r.data, 'no content')
    w.check(not r.cookies, 'no session')


def insider(w, kind, slash):
    """with the secret everything is as if there were none"""
    path = w.choice('path', [p for p in ROUTES[kind]
                             if 'graph' not in p and 'training' not in p])
    method = w.choice('method', METHODS)
    secret = text.text(w, 'secret', 2)
    posted = text.text(w, 'posted', 2)
    log, log2 = [], []
    web = make_app(w, kind, secret, log)._make_app()
    if not path.startswith('/zounds/login'):
        open_web = make_app(w, kind, w.choice('none', (None, '')),
                            log2)._make_app()
    else:
        open_web = make_app(w, kind, None, log2)._make_app()
    got = request(w, web, 'GET', '/zounds/login' + slash)
    w.check(got.status == 200, 'anybody can try to log in')
    got = request(w, web, 'POST', '/zounds/login' + slash,
                  form={'secret': posted})
    w.check(w.iff(bool(got.cookies), secret == posted),
            'the secret starts a session')
    w.assume(secret == posted)
    w.check(got.status == 302, 'and leads back')
    headers = {'Cookie': cookie_header(got)}
    r = request(w, web, method, path, headers, BODY)
    s = request(w, open_web, method, path, {}, BODY)
    w.check(r.status == s.status, 'same status')
    w.check(r.data == s.data, 'same content')
    pick = lambda c: sorted(x for x in c.headers.get_all() if x[0] not in VARY)
    w.check(pick(r) == pick(s), 'same headers')
    w.check(log == log2, 'same effects')


def unsecured(w):
    """without a secret nobody has to log in, nor can"""
    secret = w.choice('none', (None, ''))
    log = []
    web = make_app(w, 'repl', secret, log)._make_app()
    r = request(w, web, 'GET', '/')
    w.check(w.And(r.status == 200, b'<html' in r.data), 'user interface')
    r = request(w, web, 'POST', '/zounds/repl', body=BODY)
    w.check(w.And(r.status == 200, log == [('touch',)]), 'evaluates')
    r = request(w, web, 'GET', '/zounds/temp/t')
    w.check(w.And(r.status == 200, r.data == b'held in memory',
                  r.headers['Content-Type'] == 'text/plain'), 'held in memory')
    r = request(w, web, 'GET', '/zounds/temp/u')
    w.check(r.status == 404, 'not held in memory')
    posted = text.text(w, 'posted', 2)
    r = login(w, web, posted)
    w.check(w.And(r.status == 401, not r.cookies), 'no secret, no session')


def number(w, t):
    return shadow.sym_int(t) if w.symbolic else int(t)


def feature(w, how):
    """a feature is served with the status, type and range of what is sent"""
    total = w.int('total', 1, 10 ** 9)
    a, b = w.int('a', 0, 10 ** 9), w.int('b', 0, 10 ** 9)
    w.assume(w.And(a < total, a <= b))
    log = []
    app = make_app(w, 'repl', None, log,
                   model=make_model(log, total, b'{"some": "content"}'))
    web = app._make_app()
    headers = {'whole': {}, 'open': {'Range': 'bytes=%s-' % a},
               'closed': {'Range': 'bytes=%s-%s' % (a, b)}}[how]
    _id = w.choice('id', ('id', 'a/b', 'http://x/y?z=1#f', 'p%20q', 'ü +',
                          '..', 'a&b=c', '%2F'))
    r = request(w, web, 'GET', app.feature_path(_id, 'f'), headers)
    w.check(r.status == (200 if how == 'whole' else 206), 'status')
    w.check(r.data == b'{"some": "content"}', 'content')
    w.check(r.headers['Content-Type'] == 'application/json', 'type')
    w.check(r.headers['Accept-Ranges'] == 'bytes', 'accepts ranges')
    w.check(log[0] == ('document', _id), 'the document of this id')
    w.check(log[1] == ('feature', 'f'), 'this feature')
    _, pos, n = log[2]
    w.check(pos == (0 if how == 'whole' else a), 'from the first byte')
    w.check(n == b - a if how == 'closed' else n is None,
            'as much as asked for')
    unit, rest = r.headers['Content-Range'].split(' ')
    span, size = rest.split('/')
    x, y = span.split('-')
    stop = w.ite(b < total, b, total) if how == 'closed' else total
    w.check(w.And(unit == 'bytes', number(w, x) == (0 if how == 'whole' else a),
                  number(w, y) == stop, number(w, size) == total),
            'content range')


def spoken(w, x):
    """a number as it appears in a header"""
    return str(x) if w.symbolic else '%.15f' % x


def slices(w, kind, closed):
    """a time range of a series or of encoded audio"""
    Range = w.z('ui.contentrange.RangeRequest')
    log = []
    a = w.real('a', 0, 100)
    length = w.real('length', 0.01, 100)
    wanted = 'seconds=%s-%s' % (
        spoken(w, a), spoken(w, a + length) if closed else '')
    model = make_model(log)
    mod = w.z('ui.serializer')
    if kind == 'series':
        P = w.z('persistence.ArrayWithUnitsFeature')
        TD, Id = w.z('timeseries.TimeDimension'), \
            w.z('core.IdentityDimension')
        n = w.int('n', 2, 10 ** 4)
        # a frame every half second, of a second
        data = w.z('core.ArrayWithUnits')(
            w.labels((n, 2)),
            [TD(w.td(5 * 10 ** 11), w.td(10 ** 12)), Id()])
        total = (n + 1) * 5 * 10 ** 11
        w.assume(a * 2 < n)
        part = data[Range(wanted).range()]
        result = 'image/png'
    else:
        P = w.z('soundfile.OggVorbisFeature')
        total = w.int('total', 2 * 10 ** 11, 10 ** 14)
        w.assume(a * 10 ** 12 < total)

        class Data(object):
            duration_seconds = total / 1e12
            samplerate, channels = 11025, 2

            def __getitem__(self, slce):
                log.append(slce)
                return 'samples'
        data = Data()
        result = 'audio/ogg'

    class Feature(P):
        def __init__(self):
            self.key = 's'

        version = 'v'
        encoder = model.features['f'].encoder

        def __call__(self, **k):
            log.append(k['_id'])
            return data

    def image(x, is_partial=False, content_range=None):
        log.append(x)
        return mod.TempResult(b'content', 'image/png', is_partial=is_partial,
                              content_range=content_range)

    class File(object):
        def __init__(self, bio, **k):
            self.bio = bio
            log.append(k)

        def write(self, samples):
            log.append(samples)
            self.bio.write(b'content')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    model.features = dict(model.features, s=Feature())
    web = make_app(w, 'repl', None, log, model=model)._make_app()
    old = mod.generate_image, mod.SoundFile
    try:
        mod.generate_image, mod.SoundFile = image, File
        r = request(w, web, 'GET', '/zounds/id/s', {'Range': wanted})
    finally:
        mod.generate_image, mod.SoundFile = old
    whole = kind != 'series' and not closed and w.ps(log[2].start) == 0
    w.check(r.status == (200 if whole else 206), 'a part')
    w.check(r.data == b'content', 'content')
    w.check(r.headers['Content-Type'] == result, 'type')
    w.check(log[:2] == [('document', 'id'), 'id'], 'of this document')
    near = lambda ps, sec: w.And(ps - sec * 1e12 <= 2e6,
                                 ps - sec * 1e12 >= -2e6)
    if kind == 'series':
        x = log[2]
        w.check(x.shape == part.shape, 'as long as asked for')
        w.check(w.And(x[0, 0] == part[0, 0], x[0, 1] == part[0, 1]),
                'what was asked for')
    else:
        w.check(near(w.ps(log[2].start), a), 'start')
        if closed:
            w.check(near(w.ps(log[2].duration), length), 'duration')
        else:
            w.check(log[2].duration is None, 'open end')
        w.check(log[3]['samplerate'] == 11025, 'sample rate')
        w.check(log[3]['channels'] == 2, 'channels')
        w.check(log[4] == 'samples', 'samples')
    unit, (x, y, size) = fields(w, r.headers['Content-Range'])
    stop = a + length if closed else total / 1e12
    stop = w.ite(stop * 1e12 < total, stop, total / 1e12)
    w.check(unit == 'seconds', 'unit')
    w.check(w.And(near(x * 1e12, a), near(y * 1e12, stop),
                  near(size * 1e12, total / 1e12)), 'range')


def repl(w):
    """a statement is answered with its value, output or error"""
    json = wire.make_json() if w.symbolic else __import__('json')
    x, y = w.int('x', -5, 5), w.int('y', -5, 5)
    mine = {'x': x, 'y': y}
    web = make_app(w, 'repl', None, [], locals=mine,
                   globals={'print': print})._make_app()
    out = sys.stdout

    def post(statement):
        r = request(w, web, 'POST', '/zounds/repl/', body=statement)
        w.check(sys.stdout is out, 'output goes where it went before')
        w.check(r.headers['Content-Type'] == 'application/json', 'type')
        return r.status, json.loads(r.data.decode())

    order = w.choice('order', ('before', 'after'))
    if order == 'before':
        post(b'1 // 0')
    status, a = post(b'x // y')
    if status == 200:
        w.check(y != 0, 'an error')
        w.check('error' not in a, 'no error')
        w.check(number(w, str(a['result'])) == x // y, 'value')
    else:
        w.check(status == 400, 'bad request')
        w.check(y == 0, 'no error')
        w.check('ZeroDivisionError' in a['error'], 'the error')
        w.check('result' not in a, 'no result')
    w.check('url' not in a, 'nothing to look at')
    status, a = post(b'z = x\nprint("out")\nprint(z is x)')
    w.check(w.And(status == 200, a['result'] == 'out\nTrue\n'), 'output')
    w.check(mine['z'] is x, 'assigns')
    status, a = post(b'w = 1 +')
    w.check(w.And(status == 400, 'SyntaxError' in a['error']), 'syntax')
    status, a = post(b'print("seen") or 5')
    w.check(w.And(status == 200, a['result'] == '5'), 'value of this statement')


def shown(w):
    """values which can be shown get an address of their own"""
    json = __import__('json')
    n = w.choice('n', (1, 2, 3))
    log = []
    app = make_app(w, 'repl', None, log)

    class Shown(object):
        def __init__(self, k):
            self.k = k

    class Serializer(object):
        def matches(self, context):
            return isinstance(context.value, Shown)

        def serialize(self, context):
            R = w.z('ui.serializer.TempResult')
            seen.append((context.document, context.feature))
            return R(b'number %d' % context.value.k, 'image/%d' % context.value.k)

    seen = []
    app.serializers.insert(0, Serializer())
    doc = app.model('id')
    doc.f, doc.other = Shown(9), Shown(8)
    app.locals['doc'] = doc
    values = [Shown(k) for k in range(n)]
    app.locals['values'] = values
    web = app._make_app()
    which = [w.choice('which%d' % k, range(n)) for k in range(2)]
    urls = []
    for k in which:
        r = request(w, web, 'POST', '/zounds/repl', body=b'values[%d]' % k)
        a = json.loads(r.data.decode())
        w.check(a['contentType'] == 'image/%d' % k, 'type')
        urls.append(a['url'])
    for u, k in list(zip(urls, which)) * 2:
        r = request(w, web, 'GET', u)
        w.check(w.And(r.status == 200, r.data == b'number %d' % k,
                      r.headers['Content-Type'] == 'image/%d' % k),
                'what was shown')
    # features of documents are known to be that
    del seen[:]
    for statement, k, f in (('doc.f', 9, 'f'), ('doc.other', 8, None)):
        r = request(w, web, 'POST', '/zounds/repl', body=statement.encode())
        w.check(r.status == 200, 'shown')
        u = json.loads(r.data.decode())['url']
        r = request(w, web, 'GET', u)
        w.check(r.data == b'number %d' % k, 'the value of the feature')
        d, g = seen.pop()
        w.check((d is doc and g is app.model.features[f]) if f
                else g is None, 'the feature')


def fixed(w, v):
    return shadow.sym_float(str(v)) if w.symbolic else float(v)


def search(w, given):
    """results of a search, and how to ask for them again"""
    json = wire.make_json() if w.symbolic else __import__('json')
    TS = w.z('timeseries.TimeSlice')
    Results = w.z('index.SearchResults')
    if w.symbolic:
        query = wire.ScalarBytes(w.int('query', 0, 2 ** 62), 'uint64')
    else:
        query = w.int('query', 0, 2 ** 62).to_bytes(8, 'little')
    asked = []
    ids = ('c', 'a/b')
    times = [(w.int('s%d' % k, 0, 10 ** 15), w.int('d%d' % k, 1, 10 ** 15))
             for k in range(2)]
    slices = [TS(w.td(d), start=w.td(s)) for s, d in times]

    class Search(object):
        def results(self):
            return Results(query, (x for x in zip(ids, slices)))

        def decode_query(self, binary):
            return ('decoded', binary)

        def search(self, q, n_results):
            asked.append((q, n_results))
            return self.results()

        def random_search(self, n_results):
            asked.append((None, n_results))
            return self.results()

    log = []
    model = make_model(log)
    app = w.z('ui.search.ZoundsSearch')(
        model=model, visualization_feature=model.features['v'],
        audio_feature=model.features['f'], search=Search(),
        n_results=w.choice('n', (1, 7)))
    n = app.n_results
    web = app._make_app()
    r = request(w, web, 'GET', '/zounds/search')
    w.check(r.status == 200, 'finds')
    w.check(asked == [(None, n)], 'at random')
    a = json.loads(r.data.decode()) if not w.symbolic else \
        __import__('json').loads(r.data.decode())
    if given:
        q = urllib.parse.quote(a['query'], safe='')
        r = request(w, web, 'GET', '/zounds/search?query=' + q)
        w.check(r.status == 200, 'finds')
        (kind, binary), m = asked[1]
        w.check(m == n, 'as many')
        if w.symbolic:
            w.check(isinstance(binary, wire.ScalarBytes), 'the query')
            w.check(binary.value == query.value, 'the same query')
        else:
            w.check(binary == query, 'the same query')
        a = __import__('json').loads(r.data.decode())
    w.check(r.headers['Content-Type'] ==
            'application/vnd.zounds.searchresults+json', 'type')
    w.check(len(a['results']) == 2, 'all results')
    near = lambda v, ps: w.And(v * 1e12 - ps <= 1e6, v * 1e12 - ps >= -1e6)
    for x, _id, (s, d) in zip(a['results'], ids, times):
        w.check(near(fixed(w, x['slice']['start']), s), 'start of the slice')
        w.check(near(fixed(w, x['slice']['duration']), d), 'its duration')
        for kind, key in (('audio', 'f'), ('visualization', 'v')):
            del log[:]
            got = request(w, web, 'GET', x[kind])
            w.check(got.status == 200, 'served')
            w.check(log[:2] == [('document', _id), ('feature', key)],
                    'of this document')
    r = request(w, web, 'GET', '/')
    w.check(w.And(r.status == 200, b'<html' in r.data), 'user interface')


def history(w, kind):
    """the newest values of every kind, at every so many batches"""
    freq = w.int('frequency', 1, 4)
    first = w.int('batch', 0, 10 ** 6)
    points = w.choice('points', (1, 2))
    t = Trainer()
    if kind == 'plain':
        keys = ('loss', 'score')
        app = w.z('ui.training_monitor.TrainingMonitorApp')(
            trainer=t, keys_to_graph=keys, batch_frequency=freq,
            n_training_points=points)
    else:
        keys = {'Supervised': ('train_error', 'test_error'),
                'Gan': ('generator_score', 'real_score')}[kind]
        app = w.z('ui.training_monitor.%sTrainingMonitorApp' % kind)(
            trainer=t, batch_frequency=freq, n_training_points=points)
    w.check(len(t.callbacks) == 1, 'listens')
    want = {k: [] for k in keys}
    for i in range(4 if kind == 'plain' else 2):
        k = w.choice('reported%d' % i, range(3))
        data = dict(list(zip(keys, (10 * i, 10 * i + 1)))[:k])
        batch = first + i
        t.callbacks[0](epoch=0, batch=batch, **data)
        if batch % freq == 0:
            for key in data:
                want[key].append(data[key])
    for key in keys:
        got = list(app.training_history[key])
        # an addition may stand next to those that are kept
        w.check(len(got) <= points + 1, 'no more than asked for')
        w.check(len(got) >= min(points, len(want[key])), 'no less')
        w.check(got == want[key][len(want[key]) - len(got):], 'the newest')


def links(w, kind):
    """addresses of features lead to them"""
    log = []
    model = make_model(log)
    k = dict(model=model, visualization_feature=model.features['v'],
             audio_feature=model.features['f'])
    if kind == 'repl':
        app = w.z('ui.api.ZoundsApp')(**k)
    elif kind == 'Search':
        app = w.z('ui.search.ZoundsSearch')(search=None, **k)
    elif kind == 'plain':
        app = w.z('ui.training_monitor.TrainingMonitorApp')(
            Trainer(), ('loss',), **k)
    else:
        app = w.z('ui.training_monitor.' + kind + 'MonitorApp')(Trainer(), **k)
    _id = ''.join(w.choice('c%d' % i, 'a/?%# +&.ü') for i in range(2)) + 'z'
    r = request(w, app._make_app(), 'GET', app.feature_path(_id, 'f'))
    w.check(r.status == 200, 'served')
    w.check(log[0] == ('document', _id), 'of this document')


def messages(w):
    """a page which is open hears of every so many batches"""
    import json
    freq = w.int('frequency', 1, 4)
    first = w.int('batch', 0, 10 ** 6)
    t = Trainer()
    app = w.z('ui.training_monitor.TrainingMonitorApp')(
        trainer=t, keys_to_graph=('loss', 'score'), batch_frequency=freq)
    H = app.training_handler()
    sent = []
    pages = [H.__new__(H) for _ in range(2)]
    for k, p in enumerate(pages):
        p.write_message = lambda m, k=k: sent.append((k, m))
    pages[0].open()
    late = w.choice('late', (0, 1))
    left = w.choice('left', (1, 2))
    want = []
    wjson = wire.make_json() if w.symbolic else json
    for i in range(3):
        if i == late:
            pages[1].open()
        if i == left:
            pages[0].on_close()
        with_loss = w.choice('loss%d' % i, (0, 1))
        data = {'loss': i} if with_loss else {}
        batch = first + i
        for f in list(t.callbacks):
            f(epoch=5, batch=batch, other=3, **data)
        if batch % freq == 0:
            m = dict(epoch=5, batch=batch, **data)
            if i < left:
                want.append((0, m))
            if i >= late:
                want.append((1, m))
    w.check(len(sent) == len(want), 'one message for each open page')
    key = lambda x: x[0]
    for (k, m), (j, n) in zip(sorted(sent, key=key), sorted(want, key=key)):
        m = wjson.loads(m)
        w.check(k == j, 'of this page')
        w.check(sorted(m) == sorted(n), 'what there is')
        w.check(w.And(*[m[x] == n[x] for x in n]), 'values')


SESSIONS = ('none', 'wrong secret', 'other app', 'tampered', 'plain')
HARNESSES = [
    Harness('outsider', outsider, world_b,
            [(k, s) for k in ('repl', 'monitor') for s in SESSIONS],
            bounds='any secret of 2 characters, any other one of up to 3'),
    Harness('insider', insider, world_b,
            [('repl', ''), ('repl', '/'), ('monitor', '')],
            bounds='any secret of 2 characters'),
    Harness('unsecured', unsecured, world_b,
            bounds='any text of 2 characters'),
    Harness('feature', feature, world_b, [('closed',), ('open',), ('whole',)],
            bounds='resources up to 10^9 bytes',
            stubs=['featureflow document, feature and database']),
    Harness('slices', slices, world_b,
            [(k, c) for k in ('series', 'encoded') for c in (True, False)],
            bounds='series of up to 10^4 frames, audio of up to 100 s, any '
            'range in it', stubs=['drawing, encoding of audio']),
    Harness('repl', repl, world_b, bounds='values between -5 and 5'),
    Harness('shown', shown, world_b, bounds='2 of up to 3 values'),
    Harness('search', search, world_b, [(False,), (True,)],
            bounds='any query of 8 bytes, any slices up to 1000 s'),
    Harness('history', history, world_b,
            [('plain',), ('Supervised',), ('Gan',)],
            bounds='up to 4 batches from any up to 10^6 on'),
    Harness('links', links, world_b,
            [('repl',), ('Search',), ('plain',), ('SupervisedTraining',),
             ('GanTraining',), ('TripletEmbedding',)],
            bounds='identifiers of 3 characters out of 10 kinds'),
    Harness('messages', messages, world_b,
            bounds='3 batches from any up to 10^6 on, 2 pages'),
]
ASSUMPTIONS = [
    'requests are handed to tornado\'s application without a socket; '
    'tornado itself is not encoded: its signatures are taken to be '
    'unforgeable',
    'secrets consist of visible ASCII characters',
    'ranges are satisfiable: they start inside the resource']
