"""C06: windowing neither loses nor duplicates samples."""
import numpy as np
from symz.harness import Harness
from symz.worlds import world_b

WS = [(w, s) for w in range(1, 9) for s in range(1, w + 1)] + [
    (512, 256), (2048, 1024), (4410, 1000), (1024, 1023), (17, 1), (100, 7)]
# windows with gaps between them
GAPS = [(w, s) for w in (1, 2, 3, 5) for s in range(w + 1, w + 5)]


def lab(i, j=None):
    return i if j is None else i * 1000003 + j


def at(w, arr, ix):
    if w.symbolic:
        return arr.at(tuple(ix))
    return int(np.asarray(arr)[tuple(ix)])


def source(w, n, cols):
    if cols:
        return w.labels((n, cols))
    return w.labels((n,))


def no_pad(w, win, step, cols):
    n = w.int('n', 0, 20000)
    a = source(w, n, cols)
    leftover, out = w.z('nputil.windowed')(a, win, step)
    tail = (cols,) if cols else ()
    single = win == 1   # no window axis is added
    m = out.shape[0]
    w.observe('windows', m)
    w.observe('leftover', leftover.shape[0])
    w.check(m >= 0, 'a number of windows')
    i = w.int('i', 0)
    j = w.int('j', 0, win - 1)
    w.assume(i < n)
    c = w.int('c', 0, cols - 1) if cols else None
    ext = [c] if cols else []
    nonempty = m > 0
    if w.symbolic or m > 0:
        w.check(w.Implies(nonempty, w.And(*[
            a == b for a, b in zip(out.shape[1:], tail if single
                                   else (win,) + tail)])),
                'every window has the requested size')
        inside = i < m
        if w.symbolic or inside:
            got = at(w, out, [i] + ([] if single else [j]) + ext)
            w.check(w.Implies(inside, got == lab(i * step + j, c)),
                    'window k holds the samples from k * step on')
    # the last window fits, and another one would not
    w.check(w.Implies(nonempty, (m - 1) * step + win <= n),
            'windows hold only samples that exist')
    w.check(w.Implies(nonempty, m * step + win > n),
            'every window that fits is there')
    w.check(w.Implies(n > win, nonempty), 'there is a window when one fits')
    if single:
        w.check(leftover.shape[0] == 0, 'nothing is left over')
        return
    # what is left over starts where the next window would
    L = leftover.shape[0]
    rest = n - m * step
    rest = w.ite(rest < 0, 0, rest)
    w.check(L == rest, 'the leftover starts where the next window would')
    if w.symbolic or i < L:
        w.check(w.Implies(i < L, at(w, leftover, [i] + ext)
                          == lab(m * step + i, c)),
                'the leftover holds the trailing samples')


def padded(w, win, step, cols):
    n = w.int('n', 1, 20000)
    a = source(w, n, cols)
    leftover, out = w.z('nputil.windowed')(a, win, step, dopad=True)
    tail = (cols,) if cols else ()
    single = win == 1
    m = out.shape[0]
    w.observe('windows', m)
    w.check(m >= 1, 'at least one window')
    w.check(leftover.shape[0] == 0, 'nothing is left over')
    w.check(w.And(*[a == b for a, b in zip(
        out.shape[1:], tail if single else (win,) + tail)]),
        'every window has the requested size')
    i = w.int('i', 0)
    j = w.int('j', 0, win - 1)
    w.assume(i < m)
    c = w.int('c', 0, cols - 1) if cols else None
    got = at(w, out, [i] + ([] if single else [j]) + ([c] if cols else []))
    p = i * step + j
    w.check(w.Implies(p < n, got == lab(p, c)),
            'window k holds the samples from k * step on')
    w.check(w.Implies(p >= n, got == 0), 'padding is silence')
    w.check((m - 1) * step + win >= n, 'all samples are used')
    w.check(w.Or(m == 1, (m - 1) * step < n), 'no window is all padding')


def strided(w, win, step, cols):
    """a window over an array that is not contiguous"""
    n = w.int('n', 0, 20000)
    skip = w.pick('skip', 3) + 2
    a = source(w, n, cols)[::skip]
    l = a.shape[0]
    leftover, out = w.z('nputil.windowed')(a, win, step)
    m = out.shape[0]
    i, j = w.int('i', 0), w.int('j', 0, win - 1)
    c = w.int('c', 0, cols - 1) if cols else None
    inside = i < m
    if w.symbolic or inside:
        ext = [c] if cols else []
        got = at(w, out, [i] + ([] if win == 1 else [j]) + ext)
        w.check(w.Implies(inside, got == lab((i * step + j) * skip, c)),
                'window k holds the samples from k * step on')
    w.check(w.Implies(m > 0, m * step + win > l),
            'every window that fits is there')


def nd(w, win, step, flatten):
    """sliding_window over one or two axes"""
    from symz import lnp
    nd_ = len(win)
    shape = tuple(w.int('n%d' % k, 1, 60 if nd_ > 1 else 20000)
                  for k in range(nd_))
    if flatten and nd_ == 2:
        # the flat numbering of windows is only linear for a known width
        shape = (shape[0], w.pick('columns', 9) + 1)
    a = w.labels(shape)
    sw = w.z('nputil.sliding_window')
    args = (win, step) if nd_ > 1 else (win[0], step[0])
    fits = w.And(*[n >= x for n, x in zip(shape, win)])
    bad = False
    try:
        lnp.OOB.clear()
        res = sw(a, args[0], args[1], flatten=flatten)
    except ValueError:
        bad = True
    if bad:
        w.check(w.Not(fits), 'rejected only when the window does not fit')
        return
    w.check(fits, 'a window larger than the array is rejected')
    for o in lnp.OOB:
        w.check(o, 'no memory outside the array is read')
    lnp.OOB.clear()
    count = [(n - x) // s + 1 for n, x, s in zip(shape, win, step)]
    i = [w.int('i%d' % k, 0) for k in range(nd_)]
    j = [w.int('j%d' % k, 0, win[k] - 1) for k in range(nd_)]
    for x, c in zip(i, count):
        w.assume(x < c)
    if flatten and nd_ == 2:
        w.check(res.shape[0] == count[0] * count[1], 'number of windows')
        w.check(tuple(res.shape[1:]) == tuple(win), 'size of the windows')
        ix = [i[0] * count[1] + i[1]] + j
    else:
        w.check(w.And(*[x == c for x, c in zip(res.shape, count)]),
                'number of windows')
        w.check(tuple(res.shape[nd_:]) == tuple(win), 'size of the windows')
        ix = i + j
    src = [x * s + y for x, s, y in zip(i, step, j)]
    w.check(at(w, res, ix) == lab(*src), 'content of the windows')


ND = [((x,), (s,)) for x, s in WS[:20] + WS[-6:] + GAPS[:6]] + [
    ((2, 3), (1, 2)), ((3, 2), (3, 2)), ((4, 1), (2, 1)), ((1, 5), (1, 3)),
    ((2, 2), (3, 1))]
HARNESSES = [
    Harness('no_pad', no_pad, world_b,
            [(a, b, c) for a, b in WS + GAPS for c in (0, 3)],
            bounds='0 <= n <= 20000 samples, mono or 3 columns; every window '
                   'and step up to 8 and the listed larger ones', validate=2),
    Harness('padded', padded, world_b,
            [(a, b, c) for a, b in WS for c in (0, 3)
             if (a, b) != (1, 1) or True],
            bounds='as no_pad, with n >= 1 and step <= window', validate=2),
    Harness('strided', strided, world_b,
            [(a, b, c) for a, b in WS[1:12] for c in (0, 3)],
            bounds='views with a step of 2, 3 or 4', validate=2),
    Harness('nd', nd, world_b, [(a, b, f) for a, b in ND for f in
                                ((True, False) if len(a) == 2 else (True,))],
            bounds='one axis up to 20000, or two axes up to 60 each (flattened: '
                   '60 by 9)',
            validate=2),
]
ASSUMPTIONS = ['strided views are modelled as functions of the index into the '
               'flat buffer (symz/lnp.py), compared with numpy on solver '
               'models']
