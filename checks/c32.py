"""C32: training goes over the data as often as asked for."""
import contextlib
import itertools
import types
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a


def el(w, a, *i):
    from symz import anp
    return anp.raw(a)[i] if w.symbolic else a[i]


class Item(object):
    def __init__(self, v):
        self.v = v

    def item(self):
        return self.v


class Parameter(object):
    requires_grad = True
    is_cuda = False


class Net(object):
    """a network which notes what it is asked for"""

    def __init__(self, log, factor=10, name='net'):
        self.log, self.factor, self.name = log, factor, name
        self.p = [Parameter(), Parameter()]

    def __call__(self, x, *a, **k):
        self.log.append((self.name, x))
        return x * self.factor

    forward = __call__

    def parameters(self):
        return iter(self.p)

    def zero_grad(self):
        self.log.append(('zero', self.name))

    def train(self, mode=True):
        self.log.append(('mode', mode))
        return self

    def eval(self):
        return self.train(False)


class Loss(object):
    """any number which depends on what is compared"""

    def __init__(self, w, log):
        self.w, self.log = w, log

    def __call__(self, *args):
        self.log.append(('loss', args))
        log, w = self.log, self.w

        class Error(object):
            data = Item(('error', args))

            def backward(self):
                log.append(('backward', args))
        return Error()

    forward = __call__


class Optimizer(object):
    def __init__(self, log, name='step'):
        self.log, self.name = log, name

    def step(self):
        self.log.append((self.name,))


@contextlib.contextmanager
def patched(mod, **k):
    old = {n: getattr(mod, n) for n in k}
    for n, v in k.items():
        setattr(mod, n, v)
    try:
        yield
    finally:
        for n, v in old.items():
            setattr(mod, n, v)


def no_torch(w, log=None):
    """arrays are variables"""
    fake = types.SimpleNamespace(from_numpy=lambda x: x)
    return patched(w.z('learn.trainer'), torch=fake,
                   Variable=lambda x, **k: x)


def rows(w, a):
    return [el(w, a, i, 0) for i in range(len(a))]


def times(w, most=3):
    return (w.int('epochs', 0, most), w.int('checkpoint', 1, most),
            w.pick('calls', most) + 1)


def done(w, epochs, checkpoint, calls):
    """the epochs these calls are for, each a list"""
    out, at = [], 0
    for _ in range(calls):
        n = w.concretely(w.ite(epochs - at < checkpoint,
                               epochs - at, checkpoint))
        n = max(int(n), 0)
        out.append(list(range(at, at + n)))
        at += n
    return out


def supervised(w, n, holdout, most):
    epochs, checkpoint, calls = times(w, most)
    size = w.pick('size', n + 1) + 1
    log, seen, told = [], [], 0
    x = w.array('x', (n, 1), -1, 1)
    data = dict(data=x, labels=x * 2 + 1)
    held = int(n * holdout)
    net = Net(log)
    made = []

    def optimizer(model):
        made.append(model)
        return Optimizer(log)
    with no_torch(w):
        t = w.z('learn.SupervisedTrainer')(
            net, Loss(w, log), optimizer, epochs, size,
            holdout_percent=holdout, data_preprocessor=lambda d: d + 3,
            label_preprocessor=lambda l: l - 5, checkpoint_epochs=checkpoint)
        w.check(made == [net], 'the network is optimized')
        w.check(w.raises(RuntimeError, t.random_sample), 'no samples yet')
        gone = []

        def once(**k):
            log.append(('once',))
            t.unregister_batch_complete_callback(once)
        t.register_batch_complete_callback(once)

        class Watch(object):
            def saw(self, **k):
                gone.append(k)
        watch = Watch()
        t.register_batch_complete_callback(watch.saw)
        t.unregister_batch_complete_callback(watch.saw)
        t.unregister_batch_complete_callback(len)
        t.register_batch_complete_callback(
            lambda **k: (seen.append(k), log.append(('told',))))
        for todo in done(w, epochs, checkpoint, calls):
            del log[:], seen[:]
            with w.chance():
                w.check(t.train(data) is net, 'the trained network')
            w.check([k['epoch'] for k in seen] ==
                    [e for e in todo for _ in range(held, n, size)],
                    'each epoch once')
            groups, group = [], []
            for entry in log:
                if entry[0] == 'told':
                    groups.append(group)
                    group = []
                else:
                    group.append(entry)
            w.check(not group and len(groups) == len(seen), 'all are told')
            w.check(sum(g.count(('once',)) for g in groups) ==
                    bool(seen and not told), 'told once')
            told += len(seen)
            groups = [[e for e in g if e != ('once',)] for g in groups]
            at = held
            for g, k in zip(groups, seen):
                if at >= n:
                    at = held
                w.check(k['batch'] == at - held, 'where the batch is')
                want = ['zero', 'net', 'loss', 'backward', 'step']
                w.check([e[0] for e in g] ==
                        want + ['net', 'loss'] * bool(held), 'what is done')
                m = min(size, n - at)
                inp, (out, labels) = g[1][1], g[2][1]
                w.check(inp.shape == (m, 1), 'size of the batch')
                for i in range(m):
                    v = el(w, x, at + i, 0)
                    w.check(w.And(
                        el(w, inp, i, 0) == v + 3,
                        el(w, out, i, 0) == (v + 3) * 10,
                        el(w, labels, i, 0) == v * 2 - 4),
                        'samples with their labels, in order')
                w.check(g[3][1] is g[2][1], 'learns from these')
                w.check(k['train_error'][1] is g[2][1],
                        'error of the training batch')
                if held:
                    inp, (out, labels) = g[5][1], g[6][1]
                    w.check(len(inp) == size, 'size of the test batch')
                    for i in range(len(inp)):
                        v = el(w, inp, i, 0) - 3
                        w.check(w.Or(*[v == el(w, x, j, 0)
                                       for j in range(held)]), 'held out')
                        w.check(w.And(el(w, out, i, 0) == (v + 3) * 10,
                                      el(w, labels, i, 0) == v * 2 - 4),
                                'with their labels')
                    w.check(k['test_error'][1] is g[6][1],
                            'error of the test batch')
                else:
                    w.check(k['test_error'] == 'n/a', 'nothing is held out')
                last = [e[1] for e in g if e[0] == 'net'][-1]
                w.check(len(k['samples']) == len(last), 'samples')
                at += size
            w.check(not gone, 'no longer told')
            if seen:
                with w.chance():
                    inp, out = t.random_sample()
                w.check(w.Or(*[w.And(inp[0] == el(w, last, i, 0),
                                     out[0] == inp[0] * 10)
                               for i in range(len(last))]), 'a sample')


def plain(w, n, most):
    """a trainer of one's own"""
    T = w.z('learn.trainer.Trainer')
    epochs, checkpoint, calls = times(w, most)
    size = w.pick('size', n + 1) + 1
    log, seen = [], []
    x = w.array('x', (n, 1), -1, 1)

    class Own(T):
        def _training_step(self, epoch, batch, data):
            b = self._minibatch(data)
            log.append((epoch, batch, data, b))
            return dict(error=len(log))
    with no_torch(w):
        t = Own(epochs, size, checkpoint_epochs=checkpoint)
        t.network = net = Net([])
        t.register_batch_complete_callback(lambda **k: seen.append(k))
        for todo in done(w, epochs, checkpoint, calls):
            del log[:], seen[:]
            with w.chance(), patched(__import__('torch'),
                                     from_numpy=lambda x: x):
                w.check(t.train(x) is net, 'the trained network')
            want = [(e, b) for e in todo for b in range(0, n, size)]
            w.check([r[:2] for r in log] == want, 'each batch of each epoch')
            w.check([(k['epoch'], k['batch']) for k in seen] == want,
                    'everyone is told')
            w.check([k['error'] for k in seen] ==
                    list(range(1, len(log) + 1)), 'of this batch')
            w.check(all(k['network'] is net for k in seen), 'the network')
            for _, _, d, b in log:
                w.check(d is x and b.shape == (size, 1), 'size of the batch')
                for v in rows(w, b):
                    w.check(w.Or(*[v == r for r in rows(w, x)]),
                            'samples of the data')


def triplet(w, n, most):
    """anchors, what is like them, and others"""
    mod = w.z('learn.embedding')
    epochs, checkpoint, calls = times(w, most)
    size = w.pick('size', n) + 1
    log, seen = [], []
    x = w.array('x', (n, 3), -1, 1)
    net = Net(log)
    turn = itertools.count()

    def nudge(anchor, wide):
        log.append(('deform', anchor, wide))
        return anchor + 1

    def other(anchor, wide):
        log.append(('deform', anchor, wide))
        return anchor + 2
    fake = types.SimpleNamespace(TripletMarginLoss=lambda margin: Loss(w, log))
    with no_torch(w), patched(
            mod, nn=fake, Adam=lambda ps, **k: (
                log.append(('optimize', list(ps))), Optimizer(log))[1],
            batchwise_unit_norm=lambda v: v / 2,
            choice=lambda ds: ds[w.pick('deformation%d' % next(turn), 2)]):
        t = mod.TripletEmbeddingTrainer(
            net, epochs, size, slice(1, 3), deformations=[nudge, other],
            checkpoint_epochs=checkpoint)
        t.register_batch_complete_callback(
            lambda **k: (seen.append(k), log.append(('told',))))
        with patched_float(mod):
            for todo in done(w, epochs, checkpoint, calls):
                del log[:], seen[:]
                with w.chance():
                    w.check(t.train(dict(data=x)) is net,
                            'the trained network')
                w.check([(k['epoch'], k['batch']) for k in seen] ==
                        [(e, b) for e in todo for b in range(n // size)],
                        'each batch of each epoch')
                w.check(log[0] == ('mode', True), 'to be trained')
                w.check(log[1][0] == 'optimize' and log[1][1] == net.p,
                        'what is trained')
                groups, group = [], []
                for entry in log[2:]:
                    if entry[0] == 'told':
                        groups.append(group)
                        group = []
                    else:
                        group.append(entry)
                for g, k in zip(groups, seen):
                    order = [e[0] for e in g]
                    w.check(order == ['zero', 'net', 'net', 'deform', 'net',
                                      'loss', 'backward', 'step'],
                            'what is done')
                    d = g[3]
                    a, p, q = g[5][1]
                    anchor, wide = d[1], d[2]
                    add = {'nudge': 1, 'other': 2}[k['deformation']]
                    w.check(anchor.shape == (size, 2) and
                            wide.shape == (size, 3), 'size of the batch')
                    for i in range(size):
                        w.check(w.Or(*[w.And(*[
                            el(w, wide, i, c) == el(w, x, j, c)
                            for c in range(3)]) for j in range(n)]),
                            'an example')
                        w.check(w.Or(*[w.And(*[
                            el(w, q, i, c) == el(w, x, j, c + 1) * 5
                            for c in range(2)]) for j in range(n)]),
                            'another example')
                        for c in range(2):
                            v = el(w, wide, i, c + 1)
                            w.check(w.And(el(w, anchor, i, c) == v,
                                          el(w, a, i, c) == v * 5,
                                          el(w, p, i, c) == (v + add) * 5),
                                    'the example and its like')


@contextlib.contextmanager
def patched_float(mod):
    class Data(object):
        def __init__(self, v):
            self.v = v

        def cpu(self):
            return self

        numpy = squeeze = cpu

        def __float__(self):
            return 1.

        def item(self):
            return self.v
    global Item
    old, Item = Item, Data
    try:
        yield
    finally:
        Item = old


class Scalar(object):
    """a tensor of one number"""

    def __init__(self, log, name):
        self.log, self.name = log, name
        self.data = Item(name)

    def _op(self, *others):
        names = tuple(getattr(o, 'name', o) for o in (self,) + others)
        return Scalar(self.log, names)

    def __sub__(self, o):
        return Scalar(self.log, ('-', self.name, getattr(o, 'name', o)))

    def __add__(self, o):
        return Scalar(self.log, ('+', self.name, getattr(o, 'name', o)))

    def __neg__(self):
        return Scalar(self.log, ('neg', self.name))

    def backward(self):
        self.log.append(('backward', self.name))


def gan(w, n, given, most):
    """critic and generator take turns"""
    mod = w.z('learn.wgan')
    epochs, checkpoint, calls = times(w, most)
    size = w.pick('size', n) + 1
    critics = w.pick('critics', 2) + 1
    log, seen, outs = [], [], []
    x = w.array('x', (n, 1), -1, 1)

    class Tensor(object):
        def __init__(self, kind, of=None):
            self.kind, self.of = kind, of
            self.data = self

        def normal_(self, m, s):
            log.append(('noise', m, s))

    class Part(Net):
        def forward(self, v, **k):
            log.append((self.name, v, k))
            if self.name == 'critic':
                return Tensor('score', v)
            return Tensor('fake', v)
        __call__ = forward

    class Pair(Net):
        pass
    net = Pair(log)
    net.generator = Part(log, name='generator')
    net.discriminator = Part(log, name='critic')

    def real(v):
        return not isinstance(v, Tensor)

    def mean(t):
        return Scalar(log, 'mean of %s' % (
            'real' if real(t.of) else t.of.kind))

    def variable(v, **k):
        return v
    fake = types.SimpleNamespace(mean=mean)
    prep = (lambda e, v: (log.append(('prep', e)), v)[1]) if given else None
    args = (lambda e: dict(level=e)) if given else None
    with no_torch(w), patched(mod, torch=fake, Variable=variable):
        t = mod.WassersteinGanTrainer(
            net, (2,), critics, epochs, size, preprocess_minibatch=prep,
            kwargs_factory=args, checkpoint_epochs=checkpoint)
        t._tensor = lambda shape: (log.append(('tensor', shape)),
                                   Tensor('noise'))[1]
        t._gradient_penalty = lambda r, f, k: (
            log.append(('penalty', r, f, k)), Scalar(log, 'penalty'))[1]

        class Step(object):
            def __init__(self, name, own, others):
                self.name, self.own, self.others = name, own, others

            def step(self):
                log.append((self.name, all(p.requires_grad for p in self.own),
                            any(p.requires_grad for p in self.others)))
        g, c = net.generator.p, net.discriminator.p
        t.generator_optim = Step('step g', g, c)
        t.critic_optim = Step('step c', c, g)
        t.register_batch_complete_callback(
            lambda **k: (seen.append(k), log.append(('told',))))
        for todo in done(w, epochs, checkpoint, calls):
            del log[:], seen[:]
            drawn = []
            with w.chance(drawn):
                w.check(t.train(x) is net, 'the trained network')
            w.check([(k['epoch'], k['batch']) for k in seen] ==
                    [(e, b) for e in todo for b in range(0, n, size)],
                    'each batch of each epoch')
            w.check(all(lo == 0 and hi == n for lo, hi, v in drawn),
                    'any sample of the data may be drawn')
            w.check(log[0] == ('mode', True), 'to be trained')
            w.check([e for e in log if e[0] == 'tensor'] ==
                    [('tensor', (size, 2))], 'noise')
            groups, group = [], []
            for entry in log:
                if entry[0] == 'told':
                    groups.append(group)
                    group = []
                elif entry[0] not in ('mode', 'tensor'):
                    group.append(entry)
            for gr, k in zip(groups, seen):
                steps = [e for e in gr if e[0].startswith('step')]
                w.check([e[0] for e in steps] ==
                        ['step c'] * critics + ['step g'], 'turns')
                w.check(all(own and not other for _, own, other in steps),
                        'only the one whose turn it is learns')
                back = [e[1] for e in gr if e[0] == 'backward']
                w.check(back == [('+', ('-', 'mean of fake', 'mean of real'),
                                  'penalty')] * critics +
                        [('neg', 'mean of fake')], 'from what they learn')
                # gradients are those of this step alone
                fresh = {'critic': False, 'generator': False}
                at = {'step c': 'critic', 'step g': 'generator'}
                for e in gr:
                    if e[0] == 'zero':
                        fresh[e[1]] = True
                    elif e[0] == 'backward':
                        pass
                    elif e[0] in at:
                        w.check(fresh[at[e[0]]], 'gradients of this step')
                        fresh = dict.fromkeys(fresh, False)
                w.check(all(real(e[1]) and not real(e[2]) and
                            e[2].kind == 'fake'
                            for e in gr if e[0] == 'penalty'),
                        'the penalty is about what is real and what is not')
                shown = [e[1] for e in gr if e[0] == 'critic' and real(e[1])]
                w.check(len(shown) == critics, 'what is real')
                w.check(all(e[1] == 0 and e[2] == 1 for e in gr
                            if e[0] == 'noise'), 'unit normal noise')
                w.check(len([e for e in gr if e[0] == 'noise']) ==
                        critics + 1, 'anew each time')
                for b in shown:
                    w.check(b.shape == (size, 1), 'size of the batch')
                    for v in rows(w, b):
                        w.check(w.Or(*[v == r for r in rows(w, x)]),
                                'samples of the data')
                level = dict(level=k['epoch']) if given else {}
                w.check(all(e[2] == level for e in gr
                            if e[0] in ('critic', 'generator')) and
                        all(e[3] == level for e in gr if e[0] == 'penalty'),
                        'arguments of the epoch')
                w.check([e[1] for e in gr if e[0] == 'prep'] ==
                        [k['epoch']] * (2 * critics + 1) * given,
                        'everything is prepared')
                w.check(k['samples'].kind == 'fake' and k['network'] is net,
                        'samples of the generator')
                w.check((k['generator_score'], k['real_score'],
                         k['critic_loss']) ==
                        (back[-1], 'mean of real', back[0]), 'scores')


class Weights(object):
    """a tensor"""

    def __init__(self, a):
        self.a = a

    data = property(lambda self: self)

    def cpu(self):
        return self

    def numpy(self):
        return self.a


class Parts(object):
    def __init__(self, net, f):
        self.net, self.f = net, f

    def parameters(self):
        return iter([Parameter()])

    def __call__(self, x):
        return Weights(self.f(self.net, x))


class Model(object):
    """a network of one weight, and its parts"""

    calls = None

    def __init__(self, start):
        self.start = start
        self.weight = 1
        self.trained = None
        self.encoder = Parts(self, lambda s, x: x * s.weight)
        self.decoder = Parts(self, lambda s, x: x / s.weight)
        self.generator = Parts(self, lambda s, x: x * s.weight + s.start)
        self.discriminator = Parts(self, lambda s, x: x * s.weight - s.start)

    def parameters(self):
        return iter([Parameter()])

    def __call__(self, x):
        if self.calls is not None:
            self.calls.append((x, Gradients.off))
        return Weights(x * self.weight + self.start)

    def zero_grad(self):
        pass

    def train(self, mode=True):
        self.trained = mode
        return self

    def eval(self):
        return self.train(False)

    def state_dict(self):
        return {'weight': Weights(self.weight)}

    def load_state_dict(self, d):
        self.weight = d['weight']


class Gradients(contextlib.ContextDecorator):
    """are not kept within"""
    off = 0

    def __init__(self, mode=False):
        self.mode = mode

    def __enter__(self):
        Gradients.off += not self.mode

    def __exit__(self, *exc):
        Gradients.off -= not self.mode


def plain_torch(w):
    fake = types.SimpleNamespace(
        from_numpy=lambda x: x, no_grad=Gradients, set_grad_enabled=Gradients,
        inference_mode=lambda mode=True: Gradients(not mode),
        cuda=types.SimpleNamespace(is_available=lambda: False))
    stack = contextlib.ExitStack()
    stack.enter_context(patched(w.z('learn.util'), torch=fake))
    stack.enter_context(patched(w.z('learn.pytorch_model'), torch=fake))
    return stack


def application(w, n):
    """in chunks or at once"""
    x = w.array('x', (n, 2), -1, 1)
    net = Model(w.real('b', -1, 1))
    net.weight = w.real('w', .5, 2)
    net.calls = []
    size = w.pick('size', n + 2)
    with plain_torch(w):
        y = w.z('learn.apply_network')(net, x, chunksize=size or None)
    w.check(y.shape == x.shape and w.near(y, x * net.weight + net.start),
            'of every example, in order')
    w.check(all(len(c) <= (size or n) for c, off in net.calls),
            'no more than this at a time')
    w.check(all(off for c, off in net.calls), 'without keeping gradients')


def units(w, a, kind):
    if kind == 'plain':
        return a
    TD = w.z('timeseries.TimeDimension')
    S = w.z('timeseries.Seconds')
    I = w.z('core.IdentityDimension')
    return w.z('core.ArrayWithUnits')(
        a, [TD(S(1), S(2))] + [I() for _ in a.shape[1:]])


def network(w, kind, unit, first):
    """a network in a pipeline, trained, used and stored"""
    x = units(w, w.array('x', (2, 2), -1, 1), unit)
    start, weight = w.real('b', -1, 1), w.real('w', .5, 2)
    size = w.pick('size', 3) + 1
    chunk = w.pick('chunk', 3)
    log = []

    class Trainer(object):
        batch_size = size

        def train(self, data):
            log.append(data)
            net = Model(start)
            net.weight = weight
            return net.train()
    L = w.z('learn')
    many = kind in ('network', 'prepared')
    if many:
        k = dict(training_set_prep=lambda d: {
            a: b + 1 for a, b in d.items()}, post_training_func=lambda d: d * 2
            ) if kind == 'prepared' else {}
        make = lambda needs: L.PyTorchNetwork(
            trainer=Trainer(), needs=needs, chunksize=chunk or None, **k)
    elif kind == 'auto':
        make = lambda needs: L.PyTorchAutoEncoder(
            trainer=Trainer(), needs=needs)
    else:
        make = lambda needs: L.PyTorchGan(
            apply_network=kind, trainer=Trainer(), needs=needs)
    from featureflow.extractor import Node, Graph
    R = w.z('learn.preprocess.PreprocessResult')

    class Source(Node):
        def _process(self, data):
            yield data

    class Sink(Node):
        def _process(self, data):
            out.append(data)
            yield data
    out = []
    M = w.z('learn.preprocess.Multiply')
    before, = M(factor=.5)._process(x)
    with plain_torch(w):
        if many:
            a, b = Source(), Source()
            node = make(dict(data=a, labels=b))
            roots = [('a', a), ('b', b)]
            if first == 'labels':
                roots.reverse()
            g = Graph(**dict(roots), node=node, sink=Sink(needs=node))
            g.process(**dict([('a', before), ('b', x * 3)][
                ::-1 if first == 'labels' else 1]))
        else:
            a = Source()
            node = make(a)
            Graph(a=a, node=node, sink=Sink(needs=node)).process(a=before)
        w.check(len(out) == 1 and len(log) == 1, 'trained once')
        r, d = out[0], log[0]
        half = x * .5
        if many:
            more = int(kind == 'prepared')
            w.check(set(d) == {'data', 'labels'} and
                    w.concretely_bool(w.And(
                        w.near(d['data'], half + more),
                        w.near(d['labels'], x * 3 + more))),
                    'data and labels')
            seen = (half + more) * (1 + more)
        elif kind == 'auto':
            w.check(set(d) == {'data', 'labels'} and w.concretely_bool(
                w.And(w.near(d['data'], half), w.near(d['labels'], half))),
                'what is to be recovered')
            seen = half
        else:
            w.check(w.near(d, half), 'the data')
            seen = half
        if kind == 'auto':
            want = lambda v: v * weight
        elif kind == 'discriminator':
            want = lambda v: v * weight - start
        else:
            want = lambda v: v * weight + start
        after = want(seen)
        if kind in ('generator', 'discriminator'):
            after = seen * weight - start
        w.check(w.near(r.data, after), 'passed on')
        w.check(r.op.network.trained is False, 'no longer trained')
        stored = r.for_storage()
        w.check(stored.data is None, 'without the training data')
        state = stored.__getstate__()
        loaded = []
        for _ in range(2):
            s = type(stored).__new__(type(stored))
            s.__setstate__(dict(state))
            loaded.append(s)
        y = units(w, w.array('y', (3, 2), -1, 1), unit)
        for p in (r, stored) + tuple(loaded):
            w.check(p.name == r.name, 'name')
            w.check(p.op.network.trained is False, 'no longer trained')
            res = w.z('learn.preprocess.Pipeline')([p]).transform(y)
            w.check(res.data.shape == (3, 2), 'every example')
            w.check(w.near(res.data, want(y)), 'applied alike')
            if unit == 'units':
                w.check(res.data.dimensions[0] == y.dimensions[0], 'time')
            if kind == 'auto':
                w.check(w.near(res.inverse_transform(), y), 'and back')
            else:
                w.check(w.raises((NotImplementedError, TypeError),
                                 res.inverse_transform),
                        'there is no way back')
        if not w.symbolic:
            w.check(len({p.op.version for p in (r, stored) + tuple(loaded)})
                    == 1, 'the same version')
            other = Model(start)
            other.weight = weight + 1
            o = type(r.op)(r.op._func, **dict(r.op.kwargs, network=other))
            w.check(o.version != r.op.version, 'another one has another')


def too_much(w, kind):
    """a batch or data set may be too large"""
    bad = w.pick('bad', 3)
    mod = w.z('learn.supervised')
    log, seen = [], []
    x = w.array('x', (3, 1), -1, 1)
    fatal = w.choice('fatal', (False, True))

    class Bad(Loss):
        def __call__(self, *a):
            log.append(a)
            if len(log) == bad + 1:
                raise RuntimeError('Other' if fatal else 'Assertion failed')
            return Loss.__call__(self, *a)
    with no_torch(w):
        t = mod.SupervisedTrainer(
            Net([]), Bad(w, []), lambda m: Optimizer([]), 1, 1)
        t.register_batch_complete_callback(lambda **k: seen.append(k['batch']))
        go = lambda: t.train(dict(data=x, labels=x))
        if fatal:
            w.check(w.raises(RuntimeError, go), 'is not concealed')
        else:
            go()
            w.check(seen == [i for i in range(3) if i != bad],
                    'all but this one')
    if kind == 'supervised':
        return
    L = w.z('learn')

    def no(*a):
        raise RuntimeError('too much')
    net = Model(0)
    net.weight = w.real('w', .5, 2)
    limit = 3 if kind == 'auto' else 2

    class Small(Parts):
        def __call__(self, v):
            if len(v) >= limit:
                raise RuntimeError('too much')
            return Parts.__call__(self, v)
    small = Small(net, lambda s, v: v * s.weight)
    net.encoder = net.discriminator = net.generator = small
    Model.__call__, old = (lambda self, v: small(v)), Model.__call__

    class Trainer(object):
        batch_size = 2

        def train(self, data):
            return net
    try:
        with plain_torch(w):
            if kind == 'auto':
                data = w.array('z', (64 * 2, 1), -1, 1)
                node = L.PyTorchAutoEncoder(trainer=Trainer())
            else:
                data = w.array('z', (4, 1), -1, 1)
                node = L.PyTorchGan(trainer=Trainer()) if kind == 'gan' else \
                    L.PyTorchNetwork(trainer=Trainer())
            r, = node._process(dict(data=data, labels=data)
                               if kind == 'network' else data)
            if kind == 'auto':
                w.check(w.near(r.data, data[:2] * net.weight), 'some of it')
            else:
                w.check(r.data is None, 'nothing is passed on')
            y = w.array('y', (1, 1), -1, 1)
            w.check(w.near(r.op(y), y * net.weight), 'but it is learned')
    finally:
        Model.__call__ = old


def streamed(w, width, rounds):
    """a pipeline learns from what is drawn of the dataset, again and again"""
    import featureflow as ff
    from .c31 import run
    G, L = w.z('learn.graph'), w.z('learn.preprocess')
    f = w.real('f', .5, 2)

    class Simple(ff.BaseModel):
        first = ff.PickleFeature(L.Multiply, factor=f)
        second = ff.PickleFeature(L.MeanStdNormalization, needs=first)
        third = ff.PickleFeature(L.AbsoluteValue, needs=second)
    model = G.infinite_streaming_learning_pipeline(Simple)
    w.check(model.__name__ == 'Simple', 'name')
    d = model.features['dataset']
    w.check(d.extractor is w.z('learn.random_samples').InfiniteSampler,
            'draws from all of it')
    w.check({k: v.name for k, v in d.extractor_args.items()} ==
            {k: k for k in ('nsamples', 'dtype', 'feature_filter',
                            'parallel')}, 'settings')
    w.check([k for k, v in model.features.items() if v.store] ==
            ['pipeline'], 'the pipeline is stored')
    w.check(all(hasattr(v.needs, 'items') for v in model.features.values()),
            'the graph can be built')
    batches = [w.array('x%d' % k, (2, width), -1, 1) for k in range(rounds)]
    for x in batches:
        for k in range(width):
            w.assume(el(w, x, 0, k) - el(w, x, 1, k) > .1)
    out = run(model, 'dataset', batches, ['pipeline'])['pipeline']
    w.check(len(out) == rounds, 'after each batch')
    y = w.array('y', (1, width), -1, 1)
    for x, pipe in zip(batches, out):
        w.check(len(pipe.processors) == 3, 'all stages')
        first, second, third = pipe.processors
        w.check([p.name for p in pipe.processors] ==
                ['Multiply', 'MeanStd', 'AbsoluteValue'], 'in order')
        m = (x * f).mean(axis=0)
        w.check(w.near(second.op.mean, m), 'of this batch')
        got = pipe.transform(y).data
        want = abs(y * f - m) / second.op.std
        w.check(w.near(got, want), 'one after another')


def roots(w):
    """there is one way in, and one network to be loaded"""
    import featureflow as ff
    G, L = w.z('learn.graph'), w.z('learn.preprocess')

    class Two(ff.BaseModel):
        a = ff.PickleFeature(L.AbsoluteValue)
        b = ff.PickleFeature(L.AbsoluteValue)

    class No(ff.BaseModel):
        pass

    class One(ff.BaseModel):
        a = ff.PickleFeature(L.AbsoluteValue)
    for model in (Two, No):
        w.check(w.raises(ValueError, G.infinite_streaming_learning_pipeline,
                         model), 'just one')
    model = G.infinite_streaming_learning_pipeline(One)
    there, kinds = w.pick('there', 2), [w.pick('k%d' % k, 2) for k in range(3)]
    stages = [types.SimpleNamespace(network=k) if kind else
              types.SimpleNamespace() for k, kind in enumerate(kinds)]

    class Stored(model):
        @classmethod
        def exists(cls):
            return bool(there)

        def __getattribute__(self, key):
            return stages if key == 'pipeline' else \
                super(Stored, self).__getattribute__(key)
    if not there or not any(kinds):
        w.check(w.raises(RuntimeError, Stored.load_network), 'none')
    else:
        w.check(Stored.load_network() == kinds.index(1), 'the first')


HARNESSES = [
    Harness('supervised', supervised, world_a,
            [(1, 0., 3), (3, 0., 3), (3, .4, 1), (3, .4, 2), (4, .5, 1)],
            bounds='up to 4 samples, any size of batches, up to 3 epochs and '
            '3 rounds of up to 3', stubs=['network, loss, optimizer']),
    Harness('plain', plain, world_a, [(1, 3), (2, 1), (2, 2)],
            bounds='up to 2 samples, any size of batches, up to 3 epochs'),
    Harness('triplet', triplet, world_a, [(1, 2), (2, 1)],
            bounds='up to 2 samples', stubs=['network, loss, optimizer']),
    Harness('gan', gan, world_a, [(2, False, 1), (1, True, 3), (1, False, 2)],
            bounds='up to 2 samples', stubs=['networks, optimizers']),
    Harness('application', application, world_a, [(1,), (3,)],
            bounds='up to 3 examples, chunks of any size',
            stubs=['network']),
    Harness('network', network, world_a,
            [(k, u, f) for k in ('network', 'prepared', 'auto', 'generator',
                                 'discriminator')
             for u in ('plain', 'units') for f in ('data', 'labels')
             if f == 'data' or k == 'network'],
            bounds='2 examples to learn from, any batch and chunk size of up '
            'to 3, any weights', stubs=['network, trainer']),
    Harness('streamed', streamed, world_a, [(1, 2), (2, 1)],
            bounds='3 stages, up to 2 batches of 2 examples'),
    Harness('roots', roots, world_a, bounds='up to 3 stages'),
    Harness('too_much', too_much, world_a,
            [('supervised',), ('network',), ('gan',), ('auto',)],
            bounds='3 batches, any of them', stubs=['network, trainer']),
]
ASSUMPTIONS = ['torch is stood in for by objects which note what they are '
               'asked for']
