"""C10: Hamming distance counts the bits in which codes differ."""
import numpy as np
import z3
from symz import cyth, engine
from symz.harness import Harness
from symz.worlds import world_a

NATIVE = True


def bits_of(w, x):
    """the number of bits set, one at a time"""
    if not w.symbolic:
        return bin(int(x)).count('1')
    e = x.e if engine.is_sym(x) else z3.BitVecVal(int(x), 64)
    s = cyth.bit_sum(e)
    return engine.SymBV(z3.ZeroExt(64 - s.size(), s), True)


def elem(w, a, *i):
    from symz import anp
    return anp.raw(a)[i] if w.symbolic else a[i]


def single(w, n):
    """one word against n words"""
    f = w.z('nputil.hamming_distance')
    a = w.bv('a', 64)
    b = w.array('b', (n,), dtype=np.uint64)
    d = f(a, b)
    w.check(len(d) == n, 'one distance each')
    for i in range(n):
        x = elem(w, b, i)
        w.check(elem(w, d, i) == bits_of(w, a ^ x), 'bits that differ')
        w.observe('d%d' % i, elem(w, d, i))


def count(w, n):
    f = w.z('nputil.count_bits')
    b = w.array('b', (n,), dtype=np.uint64)
    d = f(b)
    for i in range(n):
        w.check(elem(w, d, i) == bits_of(w, elem(w, b, i)), 'bits set')


def packed(w, words, n):
    """one code of several words against n codes"""
    f = w.z('nputil.packed_hamming_distance')
    a = w.array('a', (words,), dtype=np.uint64)
    b = w.array('b', (n, words), dtype=np.uint64)
    d = f(a, b)
    w.check(len(d) == n, 'one distance each')
    for i in range(n):
        t = 0
        for k in range(words):
            t = bits_of(w, elem(w, a, k) ^ elem(w, b, i, k)) + t
        w.check(elem(w, d, i) == t, 'bits that differ')
        w.observe('d%d' % i, elem(w, d, i))


def strided(w, words, n, step):
    """codes which are part of a larger array"""
    f = w.z('nputil.packed_hamming_distance')
    a = w.array('a', (words,), dtype=np.uint64)
    b = w.array('b', (n * step, words + 1), dtype=np.uint64)
    c = b[::step, 1:]
    d = f(a, c)
    for i in range(n):
        t = 0
        for k in range(words):
            t = bits_of(w, elem(w, a, k) ^ elem(w, c, i, k)) + t
        w.check(elem(w, d, i) == t, 'bits that differ')


HARNESSES = [
    Harness('single', single, world_a, [(0,), (1,), (3,)],
            bounds='every pair of 64 bit words; up to 3 of them'),
    Harness('count', count, world_a, [(1,), (2,)], bounds='as single'),
    Harness('packed', packed, world_a, [(1, 2), (2, 3), (4, 2), (5, 1), (3, 0)],
            bounds='codes of 1 to 5 words, up to 3 of them, every content'),
    Harness('strided', strided, world_a, [(2, 2, 2), (1, 2, 3)],
            bounds='as packed'),
]
ASSUMPTIONS = ['Cython code is translated with C semantics for its typed '
               'variables; __builtin_popcountl counts the bits of 64']
