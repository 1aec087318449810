"""C07: the windows of a stream are those of the whole signal, however it is
cut into chunks."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_b

WS = [(2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2),
      (5, 4), (6, 4), (8, 3)]
F = 10 ** 9


def graph(w, make, chunks):
    """the real featureflow graph, with a source and a sink around the node"""
    from featureflow.extractor import Node, Graph

    class Source(Node):
        def _process(self, data):
            for c in data:
                yield c

    class Sink(Node):
        def _process(self, data):
            out.append(data)
            yield data
    out = []
    src = Source()
    node = make(src)
    sink = Sink(needs=node)
    Graph(src=src, node=node, sink=sink).process(src=chunks)
    return out


def lab(i, j=None):
    return i if j is None else i * 1000003 + j


def cut(w, n_chunks, cols):
    """a signal cut into n_chunks pieces of any lengths"""
    sizes = [w.int('n%d' % k, 1, 30) for k in range(n_chunks)]
    n = sum(sizes)
    whole = w.labels((n, cols) if cols else (n,))
    chunks, at = [], 0
    for s in sizes:
        chunks.append(whole[at: at + s])
        at = at + s
    return n, chunks


def stream(w, win, step, n_chunks, cols, func):
    n, raw = cut(w, n_chunks, cols)
    T = w.z('timeseries.TimeDimension')
    dims = [T(w.td(F), w.td(F))] + (
        [w.z('core.IdentityDimension')()] if cols else [])
    A = w.z('core.ArrayWithUnits')
    chunks = [A(c, dims) for c in raw]
    sr = w.z('timeseries.SampleRate')(w.td(F * step), w.td(F * win))
    weights = None
    wfunc = None
    if func == 'identity':
        wfunc = w.z('spectral.IdentityWindowingFunc')()
    elif func == 'ramp':
        weights = [2 * k + 1 for k in range(win)]
        wfunc = w.z('spectral.WindowingFunc')(
            lambda size: np.arange(size) * 2. + 1)
    SW = w.z('spectral.SlidingWindow')
    out = graph(w, lambda src: SW(sr, wfunc, needs=src), chunks)
    total = 0
    for o in out:
        total = total + o.shape[0]
    # as many windows as it takes to reach the last sample, and no more
    expect = w.ite(n <= win, 1, (n - win + step - 1) // step + 1)
    w.observe('windows', total)
    w.check(total == expect, 'the number of windows')
    i = w.int('i', 0)
    j = w.pick('j', win)
    c = w.int('c', 0, cols - 1) if cols else None
    off = 0
    for o in out:
        m = o.shape[0]
        single = win == 1
        w.check(o.ndim == (1 if single else 2) + (1 if cols else 0),
                'the axes of the windows')
        if not single:
            w.check(o.shape[1] == win, 'the size of the windows')
        inside = i < m
        if w.symbolic or inside:
            ix = [i] + ([] if single else [j]) + ([c] if cols else [])
            got = o.at(tuple(ix)) if w.symbolic else np.asarray(o)[tuple(ix)]
            p = (off + i) * step + j
            want = lab(p, c)
            if weights is not None:
                want = want * weights[j]
            w.check(w.Implies(w.And(inside, p < n), got == want),
                    'window k holds the samples from k * step on')
            w.check(w.Implies(w.And(inside, p >= n), got == 0),
                    'nothing but padding after the end')
        d = o.dimensions[0]
        w.check(isinstance(d, T), 'windows form a time series')
        if not single:
            w.check(w.And(w.ps(d.frequency) == F * step,
                          w.ps(d.duration) == F * win),
                    'with the frequency and duration of the windowing scheme')
        off = off + m


CFG = [(a, b, k, 0, None) for a, b in WS for k in (1, 2, 3)] + \
    [(a, b, 2, 3, None) for a, b in WS if a > 1] + \
    [(3, 2, 2, 0, 'identity'), (4, 2, 2, 0, 'ramp'), (3, 3, 3, 0, 'ramp'),
     (5, 2, 3, 0, 'identity')]
HARNESSES = [
    Harness('stream', stream, world_b, CFG, max_decisions=600,
            bounds='up to 3 chunks of 1..30 samples each, 12 window and step '
                   'pairs up to 8 samples, mono or 3 columns; the processing '
                   'graph is the real one', validate=4),
    Harness('stream4', stream, world_b,
            [(a, b, 4, 0, None) for a, b in WS], tiers=('thorough',),
            bounds='four chunks', max_paths=20000, max_decisions=600,
            validate=4),
]
ASSUMPTIONS = ['gapless sample rate; the windowing scheme is a whole number '
               'of samples']
