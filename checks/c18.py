"""C18: preprocessing pipelines transform as they say and can be inverted."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_a


def el(w, a, *i):
    from symz import anp
    return anp.raw(a)[i] if w.symbolic else a[i]


def P(w, name):
    return w.z('learn.preprocess.' + name)


def mag(w, v):
    return w.ite(v >= 0, v, -v)


def sq(v):
    return v * v


class Stage(object):
    """a preprocessor, what it should do, and what cannot be recovered"""

    def __init__(self, w, kind, name, shape):
        self.w, self.kind, self.shape = w, kind, shape
        k = kind
        self.out_shape = shape
        if k == 'unit':
            self.node = P(w, 'UnitNorm')()
        elif k == 'meanstd':
            self.node = P(w, 'MeanStdNormalization')()
        elif k == 'instance':
            self.m = w.real(name + 'max', .1, 10)
            self.node = P(w, 'InstanceScaling')(max_value=self.m)
        elif k == 'multiply':
            self.f = w.real(name + 'factor', -10, 10)
            w.assume(w.Or(self.f > .1, self.f < -.1))
            self.node = P(w, 'Multiply')(factor=self.f)
        elif k == 'weighted':
            self.f = w.array(name + 'weight', shape, .1, 10)
            self.node = P(w, 'Weighted')(self.f)
        elif k == 'reshape':
            self.out_shape = tuple(reversed((1,) + shape))
            self.node = P(w, 'Reshape')(self.out_shape)
        elif k == 'flatten':
            self.out_shape = (int(np.prod(shape)),)
            self.node = P(w, 'Reshape')(self.out_shape)
        elif k == 'slicer':
            a = w.pick(name + 'start', shape[-1])
            b = a + w.pick(name + 'n', shape[-1] - a) + 1
            self.slice = (a, b)
            self.out_shape = shape[:-1] + (b - a,)
            self.node = P(w, 'Slicer')(slicex=slice(a, b))
        elif k == 'log':
            self.node = P(w, 'Log')()
        elif k == 'mulaw':
            self.node = P(w, 'MuLawCompressed')()
        else:
            raise ValueError(k)

    def train(self, data):
        self.data = data
        r = list(self.node._process(data))
        self.w.check(len(r) == 1, 'one result')
        if self.kind == 'meanstd':
            n = len(data)
            self.mean, self.var = {}, {}
            for i in np.ndindex(*self.shape):
                c = [el(self.w, data, k, *i) for k in range(n)]
                m = sum(c[1:], c[0]) / n
                self.mean[i] = m
                self.var[i] = sum([sq(v - m) for v in c[1:]], sq(c[0] - m)) / n
        return r[0]

    def forward(self, x, y, tol=1e-6):
        """y is what this stage makes of x"""
        w, k = self.w, self.kind
        w.check(y.shape == x.shape[:1] + self.out_shape, 'shape')
        near = lambda a: w.And(a <= tol, a >= -tol)
        for n in range(len(x)):
            idx = list(np.ndindex(*self.shape))
            a = [el(w, x, n, *i) for i in idx]
            b = [el(w, y, n, *i) for i in np.ndindex(*self.out_shape)]
            if k == 'unit':
                s = sum([sq(v) for v in a[1:]], sq(a[0]))
                t = sum([sq(v) for v in b[1:]], sq(b[0]))
                w.check(w.Implies(s > 0, near(t - 1)), 'length one')
                w.check(w.Implies(s == 0, t == 0), 'silence stays')
                for p, q in zip(a, b):
                    w.check(w.And(w.iff(p > 0, q > 0), w.iff(p < 0, q < 0)),
                            'same direction')
            elif k == 'meanstd':
                for i, p, q in zip(idx, a, b):
                    d = sq(q) * self.var[i] - sq(p - self.mean[i])
                    w.check(w.Implies(self.var[i] > 0, w.And(
                        near(d), w.iff(q > 0, p > self.mean[i]))),
                        'distance from the mean in deviations')
                    w.check(w.Implies(self.var[i] == 0, q == 0),
                            'a feature that never varies is zero')
            elif k == 'instance':
                m = a[0] * 0
                for v in a:
                    m = w.ite(mag(w, v) > m, mag(w, v), m)
                for p, q in zip(a, b):
                    w.check(near(q * m - p * self.m), 'in proportion')
                    w.check(w.Implies(m == 0, q == 0), 'silence stays')
                    w.check(w.And(q <= self.m + tol, q >= -self.m - tol),
                            'at most the largest value')
            elif k == 'multiply':
                for p, q in zip(a, b):
                    w.check(near(p * self.f - q), 'product')
            elif k == 'weighted':
                for i, p, q in zip(idx, a, b):
                    w.check(near(p * el(w, self.f, *i) - q), 'product')
            elif k in ('reshape', 'flatten'):
                w.check(w.And(*[p == q for p, q in zip(a, b)]), 'same data')
            elif k == 'slicer':
                lo, hi = self.slice
                want = [v for i, v in zip(idx, a) if lo <= i[-1] < hi]
                w.check(w.And(*[p == q for p, q in zip(want, b)]), 'slice')
            elif k in ('log', 'mulaw'):
                f = w.z('loudness.' + {'log': 'log_modulus',
                                       'mulaw': 'mu_law'}[k])
                z = f(x)
                w.check(w.near(y, z, tol), 'compressed')

    def recover(self, x):
        """what the inverse makes of the stage's output for x"""
        w, k = self.w, self.kind
        if k == 'slicer':
            lo, hi = self.slice
            y = x.copy()
            y[..., :lo] = 0
            y[..., hi:] = 0
            return y
        return x


def units(w, a, kind):
    if kind == 'plain':
        return a
    TD = w.z('timeseries.TimeDimension')
    S = w.z('timeseries.Seconds')
    I = w.z('core.IdentityDimension')
    return w.z('core.ArrayWithUnits')(
        a, [TD(S(1), S(2))] + [I() for _ in a.shape[1:]])


def build(w, kinds, shape, n, unit):
    stages, results = [], []
    data = w.constant(np.zeros((2,) + shape)) if n is None \
        else w.array('train', (n,) + shape, -1, 1)
    data = units(w, data, unit)
    for k, kind in enumerate(kinds):
        s = Stage(w, kind, 's%d' % k, shape)
        if kind == 'meanstd':
            for i in np.ndindex(*shape):
                c = [el(w, data, j, *i) for j in range(n)]
                w.assume(w.Or(
                    w.And(*[v == c[0] for v in c]),
                    w.Or(*[w.Or(v - c[0] > .01, v - c[0] < -.01)
                           for v in c[1:]])))
        r = s.train(data)
        stages.append(s)
        results.append(r)
        data = r.data
        shape = s.out_shape
    return stages, results


def single(w, kind, shape, unit, n=2, m=2):
    """one stage, on new data"""
    if kind in ('log', 'mulaw', 'unit', 'instance'):
        w.fork_signs()
        n = None
    stages, results = build(w, [kind], shape, n, unit)
    s = stages[0]
    x = w.array('x', (m,) + shape, -1, 1)
    if kind in ('unit', 'instance'):
        for i in range(m):
            row = [el(w, x, i, *j) for j in np.ndindex(*shape)]
            w.assume(w.Or(w.And(*[v == 0 for v in row]),
                          w.Or(*[w.Or(v > .01, v < -.01) for v in row])))
    x = units(w, x, unit)
    keep = x.copy()
    p = P(w, 'Pipeline')([r.for_storage() for r in results])
    res = p.transform(x)
    w.check(w.equal(x, keep), 'the input is left as it was')
    s.forward(x, res.data)
    made = res.data.copy()
    back = res.inverse_transform()
    want = s.recover(x)
    w.check(w.equal(res.data, made), 'what was made is left as it was')
    w.check(w.equal(res.inverse_transform(), back), 'any number of times')
    w.check(back.shape == x.shape, 'shape')
    for i in np.ndindex(*shape):
        ok = s.var[i] > 0 if kind == 'meanstd' else True
        for k in range(m):
            d = el(w, back, k, *i) - el(w, want, k, *i)
            w.check(w.Implies(ok, w.And(d <= 1e-6, d >= -1e-6)), 'and back')
            if kind == 'meanstd':
                e = el(w, back, k, *i) - s.mean[i]
                w.check(w.Or(ok, w.And(e <= 1e-6, e >= -1e-6)),
                        'the mean of what never varies')
    w.check(w.equal(x, keep), 'the input is left as it was')
    if unit == 'units':
        A = w.z('core.ArrayWithUnits')
        w.check(isinstance(res.data, A), 'keeps units')
        if kind not in ('reshape', 'flatten'):
            w.check(res.data.dimensions[0] == x.dimensions[0], 'time')
        w.check(isinstance(back, A) and len(back.dimensions) == x.ndim and
                all(a == b for a, b in zip(back.dimensions, x.dimensions)),
                'and the units')


def chain(w, kinds, shape, unit):
    """several stages, on new data; each sees what the one before makes"""
    if set(kinds) & {'log', 'mulaw', 'unit', 'instance'}:
        w.fork_signs()
    stages, results = build(
        w, kinds, shape, 2 if 'meanstd' in kinds else None, unit)
    x = units(w, w.array('x', (1,) + shape, -1, 1), unit)
    for k, s in zip(kinds, stages):
        if k == 'meanstd':
            w.assume(w.And(*[v > 1e-4 for v in s.var.values()]))
    res = P(w, 'Pipeline')([r.for_storage() for r in results]).transform(x)
    y = x
    for s, r in zip(stages, results):
        z = P(w, 'Pipeline')([r]).transform(y).data
        s.forward(y, z)
        y = z
    w.check(w.near(res.data, y, 1e-9), 'one after the other')
    back = res.inverse_transform()
    want = x
    for s in stages:
        if s.kind == 'slicer':
            want = s.recover(want)
    if 'meanstd' in kinds and 'slicer' in kinds and \
            kinds.index('meanstd') < kinds.index('slicer'):
        # what was cut comes back as what had been scaled to nothing
        kept = [s for s in stages if s.kind == 'slicer'][0].recover(
            w.constant(np.ones(x.shape)))
        back, want = back * kept, want * kept
    w.check(w.near(back, want), 'and back')
    if unit == 'units':
        w.check(len(back.dimensions) == x.ndim and all(
            a == b for a, b in zip(back.dimensions, x.dimensions)),
            'and the units')


def stages(w, data):
    """stages whose order matters, and what they do"""
    f = w.real('f', .5, 2)
    made = [(P(w, 'Slicer')(slicex=slice(1, None)), lambda y: y[..., 1:]),
            (P(w, 'Multiply')(factor=f), lambda y: y * f),
            (P(w, 'Slicer')(slicex=slice(2)), lambda y: y[..., :2])]
    return made, [list(n._process(data))[0] for n, g in made]


def parts(w):
    """parts of a pipeline are pipelines of those stages"""
    made, rs = stages(w, w.constant(np.zeros((1, 4))))
    p = P(w, 'Pipeline')(rs)
    a = w.pick('a', 4)
    b = w.pick('b', 4)
    x = w.array('x', (1, 4), -1, 1)

    def want(ks):
        y = x
        for k in ks:
            y = made[k][1](y)
        return y

    def back(ks):
        y = want(ks)
        for i in reversed(range(len(ks))):
            if ks[i] == 1:
                y = y / made[1][0].factor
            else:
                z = want(ks[:i]) * 0
                at = slice(1, None) if ks[i] == 0 else slice(2)
                z[..., at] = y
                y = z
        return y
    sliced = p[a:b].transform(x).data
    w.check(sliced.shape == want(range(3)[a:b]).shape and
            w.near(sliced, want(range(3)[a:b])), 'slice')
    if a < 3 and b < 3:
        y = p[[b, a]].transform(x).data
        w.check(y.shape == want([b, a]).shape and
                w.near(y, want([b, a])), 'list')
        w.check(p[a] is rs[a], 'position')
    y = p[a:b].transform(x, wrapper=lambda d: d + 1)
    w.check(w.near(y.data, want(range(3)[a:b]) + 1), 'wrapper')
    y = p[a:b].transform(x, wrapper=lambda d: d)
    w.check(w.near(y.inverse_transform(), back(list(range(3)[a:b]))),
            'and back')


def gathered(w, n):
    """the pipeline node waits for every stage, and keeps their order"""
    from collections import deque
    made, _ = stages(w, w.constant(np.zeros((1, 4))))
    made = made[:n]
    nodes = [m[0] for m in made]
    node = P(w, 'PreprocessingPipeline')(needs=tuple(nodes))
    x = w.array('x', (2, 4), -1, 1)
    for round_ in range(2):
        left = list(range(n))
        q = deque()
        while left:
            k = left.pop(w.pick('next%d_%d' % (round_, len(left)), len(left)))
            w.check(len(q) == 0, 'waits for all')
            r = list(nodes[k]._process(x))[0]
            list(node.process(data=r, pusher=nodes[k], queue=q))
        out = [item[2]['data'] for item in q]
        w.check(len(out) == 1, 'one pipeline')
        y = x
        for r, (_, f) in zip(out[0].processors, made):
            y = f(y)
            w.check(r.data is None, 'without the training data')
        w.check(len(out[0].processors) == n, 'every stage')
        res = out[0].transform(x)
        w.check(res.data.shape == y.shape and w.near(res.data, y), 'in order')
        back = res.inverse_transform()
        kept = slice(1, 3) if n > 2 else slice(1, None)
        w.check(back.shape == x.shape and
                w.near(back[:, kept], x[:, kept]), 'and back')


def wired(w, kind, unit):
    """a stage sees what the one before makes of the training data"""
    if kind in ('log', 'mulaw', 'unit', 'instance'):
        w.fork_signs()
    x = units(w, w.array('x', (2, 2), .1, 1), unit)
    f = w.real('f', .5, 2)
    r, = P(w, 'Multiply')(factor=f)._process(x)
    w.check(w.near(r.data, x * f), 'product')
    y = w.array('y', (1, 2), .1, 1)

    def stages():
        if kind == 'binarize':
            return P(w, 'Binarize')(threshold=.5)
        if kind == 'abs':
            return P(w, 'AbsoluteValue')()
        return Stage(w, kind, 's', (2,)).node
    node = stages()
    a, = node._process(r)
    b, = node._process(r.data)
    w.check(a.data is not None and b.data is not None, 'data')
    w.check(w.near(a.data, b.data), 'what the one before makes')
    p, q = [P(w, 'Pipeline')([v.for_storage()]).transform(y).data
            for v in (a, b)]
    w.check(w.near(p, q), 'and learns from it')
    t = P(w, 'Pipeline')([a.for_storage()]).transform(x * f).data
    w.check(w.near(a.data, t), 'passes on what it makes of it')


def defaults(w, kind):
    """stages which are not told otherwise"""
    x = w.array('x', (2, 2), -1, 1)
    if kind == 'instance':
        w.fork_signs()
        for i in range(2):
            w.assume(w.Or(el(w, x, i, 0) > .01, el(w, x, i, 0) < -.01))
    node = {'multiply': 'Multiply', 'binarize': 'Binarize',
            'instance': 'InstanceScaling'}[kind]
    r = list(P(w, node)()._process(x))[0]
    for i in range(2):
        p, q = [[el(w, a, i, j) for j in range(2)] for a in (x, r.data)]
        if kind == 'multiply':
            w.check(w.And(*[a == b for a, b in zip(p, q)]), 'as they are')
        elif kind == 'binarize':
            w.check(w.And(*[b == w.ite(a > .5, 1, 0) for a, b in zip(p, q)]),
                    'more than a half')
        else:
            w.check(w.And(*[w.And(v <= 1 + 1e-6, v >= -1 - 1e-6) for v in q]),
                    'at most one')
            w.check(w.Or(*[w.Or(v >= 1 - 1e-6, v <= -1 + 1e-6) for v in q]),
                    'and one of them')


def lossy(w, kind, unit):
    """what cannot be undone says so"""
    x = units(w, w.array('x', (2, 2), -1, 1), unit)
    if kind == 'binarize':
        t = w.real('threshold', -1, 1)
        node = P(w, 'Binarize')(threshold=t)
    else:
        node = P(w, 'AbsoluteValue')()
    r = list(node._process(x))[0]
    res = P(w, 'Pipeline')([r.for_storage()]).transform(x)
    for y in (res.data, r.data):
        w.check(y.shape == x.shape, 'shape')
        for i in np.ndindex(2, 2):
            p, q = el(w, x, *i), el(w, y, *i)
            if kind == 'binarize':
                w.check(q == w.ite(p > t, 1, 0), 'above the threshold')
            else:
                w.check(q == mag(w, p), 'magnitude')
        if unit == 'units':
            w.check(all(a == b for a, b in zip(y.dimensions, x.dimensions)),
                    'units')
    w.check(w.raises(NotImplementedError, res.inverse_transform),
            'not to be undone')


def simhash(w, bits, n, unit):
    """which side of each hyperplane"""
    planes = w.array('plane', (bits, 2), -1, 1)
    x = w.array('x', (n, 2), -1, 1)
    y = w.z('learn.simhash')(planes, x)
    node = P(w, 'SimHash')(bits=bits)
    op = node.transform(plane_vectors=planes, packbits=False)
    z = op(units(w, x, unit))
    w.check(y.shape == z.shape == (n, bits), 'shape')
    for i in range(n):
        for k in range(bits):
            dot = el(w, x, i, 0) * el(w, planes, k, 0) + \
                el(w, x, i, 1) * el(w, planes, k, 1)
            w.assume(w.Or(dot > 1e-6, dot < -1e-6, dot == 0))
            for v in (el(w, y, i, k), el(w, z, i, k)):
                w.check(w.Implies(dot > 1e-6, v == 1), 'one side')
                w.check(w.Implies(dot < -1e-6, v == 0), 'other side')
    if unit == 'units':
        w.check(z.dimensions[0] == units(w, x, unit).dimensions[0], 'time')


def planes(w):
    """hyperplanes of any draw: what never varies does not matter"""
    x = np.array([[.5, 2., -.25], [.25, -1., -.25], [-.75, .5, -.25]])
    x = np.roll(x, w.pick('still', 3), axis=1)
    still = [i for i in range(3) if x[0, i] == -.25][0]
    with w.chance():
        r = list(P(w, 'SimHash')(bits=1)._process(w.constant(x)))[0]
        v = r.op.plane_vectors
        w.check(v.shape == (1, 3), 'one for each bit')
        w.check(w.equal(r.data, w.z('learn.simhash')(v, w.constant(x))),
                'of these planes')
        p = el(w, v, 0, still)
        w.check(w.And(p <= 1e-6, p >= -1e-6), 'no matter')


def packed(w):
    """64 bits in a word, in order"""
    x = w.array('x', (2, 1), -1, 1)
    signs = np.array([(-1.) ** (k % 3 == 0) for k in range(64)])
    op = P(w, 'SimHash')(bits=64, packbits=True).transform(
        plane_vectors=w.constant(signs[:, None]), packbits=True)
    plain = P(w, 'SimHash')(bits=64).transform(
        plane_vectors=w.constant(signs[:, None]), packbits=False)
    w.assume(w.And(*[w.Or(el(w, x, i, 0) > .01, el(w, x, i, 0) < -.01)
                     for i in range(2)]))
    y, z = op(x), plain(x)
    w.check(y.shape == (2, 1) and y.dtype == np.uint64, 'one word each')
    w.check(w.equal(w.np.unpackbits(y.view(np.uint8), axis=-1), z), 'bits')


class Means(object):
    """a model: subtracts the mean of what it was made to fit"""
    seen = None

    def fit(self, x):
        self.fitted = x.copy()
        self.mean = sum([x[i] for i in range(1, len(x))], x[0]) / len(x)
        return self

    def fit_transform(self, x):
        return self.fit(x).transform(x)

    def transform(self, x):
        return (x - self.mean)[:, ::-1]

    def inverse_transform(self, x):
        return x[:, ::-1] + self.mean


def model(w, kind, shape, unit):
    """a model which others have made"""
    n = int(np.prod(shape))
    mod = w.z('learn.sklearn_preprocessor')
    train = units(w, w.array('train', (2,) + shape, -1, 1), unit)
    m = Means()
    if kind == 'components':
        m.components_ = w.array('component', (n, n), -1, 1)
    node = getattr(mod, {'model': 'SklearnModel',
                         'components': 'WithComponents'}[kind])(model=m)
    r = list(node._process(train))[0]
    w.check(w.equal(m.fitted.reshape((2, n)), train.reshape((2, n))),
            'of the training data')
    x = units(w, w.array('x', (1,) + shape, -1, 1), unit)
    res = P(w, 'Pipeline')([r.for_storage()]).transform(x)
    w.check(w.equal(m.fitted.reshape((2, n)), train.reshape((2, n))),
            'of nothing else')
    w.check(w.near(res.data, m.transform(w.np.asarray(x).reshape((1, n)))),
            'transformed')
    w.check(w.near(r.data, m.transform(
        w.np.asarray(train).reshape((2, n)))), 'what it makes of the data')
    back = res.inverse_transform()
    w.check(back.shape == x.shape, 'shape')
    if kind == 'model':
        w.check(w.near(back, x), 'and back')
    else:
        w.check(w.near(w.np.asarray(back).reshape((1, n)), w.np.dot(
            w.np.asarray(res.data), m.components_)), 'sum of components')
    if unit == 'units':
        A = w.z('core.ArrayWithUnits')
        w.check(isinstance(res.data, A) and
                res.data.dimensions[0] == x.dimensions[0], 'time')
        w.check(isinstance(back, A) and all(
            a == b for a, b in zip(back.dimensions, x.dimensions)),
            'and the units')


def sharpen(w, shape, kernel, unit):
    """what stands out from its surroundings, each example for itself"""
    x = units(w, w.array('x', (2,) + shape, -1, 1), unit)
    keep = x.copy()
    kernel = np.array(kernel)
    r = list(P(w, 'Sharpen')(kernel=kernel)._process(x))[0]
    res = P(w, 'Pipeline')([r.for_storage()]).transform(x)
    w.check(w.equal(x, keep), 'the input is left as it was')
    for y in (r.data, res.data):
        w.check(y.shape == x.shape, 'shape')
        for i in range(2):
            for at in np.ndindex(*shape):
                v = 0
                for k in np.ndindex(*kernel.shape):
                    j = tuple(a - b + (n - 1) // 2 for a, b, n in
                              zip(at, k, kernel.shape))
                    if all(0 <= p < n for p, n in zip(j, shape)):
                        v = v + float(kernel[k]) * el(w, x, i, *j)
                d = el(w, y, i, *at) - w.ite(v > 0, v, v * 0)
                w.check(w.And(d <= 1e-6, d >= -1e-6), 'what stands out')
        if unit == 'units':
            w.check(all(a == b for a, b in zip(y.dimensions, x.dimensions)),
                    'units')
    w.check(w.raises(NotImplementedError, res.inverse_transform),
            'not to be undone')


def kmeans(w, k, n, unit):
    """the nearest entry of the codebook, and back to that entry"""
    K = w.z('learn.KMeans')
    node = K(centroids=k)
    book = w.array('code', (k, 2), -1, 1)
    x = units(w, w.array('x', (n, 2), -1, 1), unit)
    R = P(w, 'PreprocessResult')
    r = R(None, node.transform(codebook=book),
          inversion_data=node.inversion_data(codebook=book),
          inverse=node.inverse_transform(), name='KMeans')
    res = P(w, 'Pipeline')([r]).transform(x)
    y = res.data
    w.check(y.shape == (n, k), 'shape')
    back = res.inverse_transform()
    for i in range(n):
        ds = [sq(el(w, x, i, 0) - el(w, book, j, 0)) +
              sq(el(w, x, i, 1) - el(w, book, j, 1)) for j in range(k)]
        t = 0
        for j in range(k):
            v = el(w, y, i, j)
            w.check(w.Or(v == 0, v == 1), 'member or not')
            w.check(w.Implies(v == 1, w.And(*[
                ds[j] <= d + 1e-9 for d in ds])), 'the nearest')
            w.check(w.Implies(v == 1, w.And(*[
                el(w, back, i, c) == el(w, book, j, c) for c in range(2)])),
                'back to the centroid')
            t = t + v
        w.check(t == 1, 'one of them')


def clusters(w, k, unit):
    """the codebook is of the training data, as large as asked for"""
    from .c32 import patched
    mod = w.z('learn.learn')
    if not hasattr(mod, 'kmeans'):
        return
    book = w.array('code', (k, 1), -1, 1)
    seen = []

    def kmeans(data, n, *a, **kw):
        seen.append((data, n))
        return book, .5
    x = units(w, w.constant(np.array([[.5], [-.25], [1.]])), unit)
    with patched(mod, kmeans=kmeans):
        r = list(mod.KMeans(centroids=k)._process(x))[0]
    w.check(len(seen) == 1 and seen[0][1] == k, 'how many')
    w.check(seen[0][0].shape == x.shape and w.equal(seen[0][0], x),
            'of the training data')
    res = P(w, 'Pipeline')([r.for_storage()]).transform(x)
    w.check(r.data.shape == (3, k) and w.equal(r.data, res.data),
            'what it makes of the data')
    back = res.inverse_transform()
    for i in range(3):
        for j in range(k):
            w.check(w.Implies(el(w, res.data, i, j) == 1, w.And(*[
                el(w, back, i, c) == el(w, book, j, c) for c in range(1)])),
                'back to the centroid')


def versions(w):
    """stages do the same exactly when they have the same version"""
    keep = []

    def proc(name, *a, **k):
        x = np.arange(12.).reshape((3, 4)) ** 2
        def f():
            d = {n: slice(*v) if n == 'slicex' else v for n, v in k.items()}
            r = list(P(w, name)(*a, **d)._process(w.constant(x)))[0]
            keep.append(r)
            return r.op.version
        return f
    kinds = [
        proc('Multiply', factor=2.0), proc('Multiply', factor=3.0),
        proc('Slicer', slicex=(0, 3)), proc('Multiply', factor=-2.0), proc('Slicer', slicex=(1, 3)),
        proc('Slicer', slicex=(0, 4, 2)), proc('Slicer', slicex=(3,)),
        proc('Reshape', (2, 2)), proc('Reshape', (4,)), proc('Reshape', (1, 4)),
        proc('InstanceScaling', max_value=1), proc('UnitNorm'), proc('Log'),
        proc('MuLawCompressed'), proc('Binarize', threshold=.5),
        proc('Binarize', threshold=.25), proc('AbsoluteValue'),
        proc('MeanStdNormalization'),
        lambda: P(w, 'MeanStdNormalization')().transform(
            mean=np.zeros(4), std=np.ones(4)).version,
        lambda: P(w, 'MeanStdNormalization')().transform(
            mean=np.ones(4), std=np.ones(4)).version,
        lambda: P(w, 'MeanStdNormalization')().transform(
            mean=np.ones(4), std=np.ones(4) * 2).version]
    for packed in (False, True):
        for a in (1., 2.):
            kinds.append(lambda a=a, packed=packed: P(w, 'SimHash')().transform(
                plane_vectors=np.ones((64, 2)) * a, packbits=packed).version)

    class Versioned(object):
        def __init__(self, v):
            self.version = v
    for v in 'ab':
        kinds.append(lambda v=v: P(w, 'Multiply')().transform(
            factor=Versioned(v)).version)
    i, j = w.pick('i', len(kinds)), w.pick('j', len(kinds))
    w.check((kinds[i]() == kinds[j]()) == (i == j), 'stage')
    Pl = P(w, 'Pipeline')

    class S(object):
        def __init__(self, v):
            self.op = Versioned(v)
    a, b = S(kinds[i]()), S(kinds[j]())
    w.check(Pl([a, b]).version == Pl([a, b]).version, 'same pipeline')
    w.check((Pl([a, b]).version == Pl([b, a]).version) == (i == j), 'order')
    w.check(Pl([a]).version != Pl([a, b]).version, 'length')


def learned(w, own):
    """a node which applies a learned pipeline"""
    L = w.z('learn.Learned')
    fs = [w.real('f%d' % i, .5, 2) for i in range(2)]
    rs = [list(P(w, 'Multiply')(factor=f)._process(
        w.constant(np.zeros((1, 2)))))[0] for f in fs]

    class Doc(object):
        pipeline = P(w, 'Pipeline')(rs)
        other = P(w, 'Pipeline')(rs[:1])
    k = dict(pipeline_func=lambda d: d.other) if own else {}
    node = L(learned=Doc, wrapper=lambda d: d + 1, **k)
    p = Doc.other if own else Doc.pipeline
    w.check(node.version == p.version, 'version of the pipeline')
    w.check(L(learned=Doc, version='x').version == 'x', 'given version')
    x = w.array('x', (2, 2), -1, 1)
    y = x * fs[0] if own else x * fs[0] * fs[1]
    out = list(node._process(x))
    w.check(len(out) == 1 and w.near(out[0], y + 1), 'transformed')
    if not own:
        node = L(learned=Doc, dtype=np.int64)
        x = w.array('z', (1, 2), 0, 3)
        out = list(node._process(x))
        w.check(w.near(out[0], x.astype(np.int64) * fs[0] * fs[1]),
                'of the type it works with')


CHAINS = [
    (('multiply', 'weighted'), (2,), 'units'),
    (('slicer', 'multiply'), (2,), 'units'),
    (('slicer', 'reshape', 'multiply'), (2,), 'plain'),
    (('flatten', 'weighted', 'slicer'), (1, 2), 'units'),
    (('meanstd', 'multiply'), (2,), 'units'),
    (('multiply', 'meanstd'), (2,), 'plain'),
    (('meanstd', 'flatten'), (1, 2), 'plain'),
    (('log', 'multiply'), (1,), 'plain'),
    (('multiply', 'log'), (1,), 'units'),
    (('reshape', 'unit'), (2,), 'plain'),
    (('unit', 'multiply'), (2,), 'units'),
    (('instance', 'mulaw'), (1,), 'plain'),
]
HARNESSES = [
    Harness('single', single, world_a, [
        (k, s, u) for u in ('plain', 'units')
        for k, s in (('multiply', (2,)), ('weighted', (2,)), ('flatten', (2, 2)),
                     ('reshape', (2,)), ('slicer', (3,)), ('slicer', (1, 2)),
                     ('meanstd', (2,)), ('meanstd', (1, 2)),
                     ('instance', (2,)), ('instance', (1, 2)), ('unit', (2,)),
                     ('unit', (2, 1)), ('log', (1,)), ('mulaw', (1,)))],
            bounds='2 examples of up to 4 features for training, 2 to '
            'transform; every value in [-1, 1], every parameter'),
    Harness('chain', chain, world_a, CHAINS,
            bounds='2 and 3 stages on examples of 1 or 2 features'),
    Harness('wired', wired, world_a, [(k, u) for u in ('plain', 'units')
            for k in ('unit', 'meanstd', 'instance', 'multiply', 'weighted',
                      'flatten', 'slicer', 'log', 'mulaw', 'binarize',
                      'abs')],
            bounds='2 stages on 2 examples of 2 features'),
    Harness('defaults', defaults, world_a, [('multiply',), ('binarize',),
                                            ('instance',)],
            bounds='2 examples of 2 features in [-1, 1]'),
    Harness('parts', parts, world_a, bounds='3 stages'),
    Harness('gathered', gathered, world_a, [(1,), (3,)],
            bounds='up to 3 stages, in any order'),
    Harness('lossy', lossy, world_a, [(k, u) for k in ('binarize', 'abs')
                                      for u in ('plain', 'units')],
            bounds='2 examples of 2 features in [-1, 1]'),
    Harness('simhash', simhash, world_a, [(2, 1, 'plain'), (1, 2, 'units')],
            bounds='2 planes, 2 features in [-1, 1]'),
    Harness('planes', planes, world_a, bounds='3 examples of 3 features, every draw'),
    Harness('packed', packed, world_a, bounds='2 examples, 64 planes'),
    Harness('model', model, world_a, [
        (k, s, u) for k in ('model', 'components')
        for s, u in (((2,), 'units'), ((1, 2), 'plain'), ((2, 1), 'units'))],
            stubs=['the model'], bounds='3 examples of 2 features'),
    Harness('sharpen', sharpen, world_a, [((3,), (-1, 2, .5), 'units'),
            ((4,), (1., -1.), 'plain'), ((2, 2), ((1., 0.), (-2., .5)),
                                         'plain')],
            bounds='2 examples of up to 4 features'),
    Harness('kmeans', kmeans, world_a, [(2, 1, 'units'), (2, 2, 'plain'),
                                        (3, 1, 'plain')],
            bounds='any codebook of 2 or 3 centroids'),
    Harness('clusters', clusters, world_a, [(2, 'plain'), (2, 'units')],
            bounds='3 examples, any codebook',
            stubs=['k-means']),
    Harness('versions', versions, world_a, bounds='27 different stages'),
    Harness('learned', learned, world_a, [(True,), (False,)],
            bounds='2 stages'),
]
ASSUMPTIONS = ['features that vary do so by 0.01 or more; examples are silent '
               'or have an amplitude of 0.01 or more',
               'real arithmetic for features; log and exp as in C19',
               'the codebook of k-means is any codebook']
