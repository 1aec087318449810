"""What the thorough runs try on top: larger sizes, further combinations.

for each check and harness, further configurations."""
import importlib
import itertools


def of(check):
    f = globals().get(check.lower())
    if f is None:
        return {}
    return f(importlib.import_module('checks.' + check.lower()))


def c01(m):
    return {'assign': m.RATES[2:6] + m.RATES[8:]}


def c02(m):
    more = [(10 ** 6, 10 ** 6, a * 10 ** 6, b * 10 ** 6)
            for a, b in ((7, 3), (2, 1), (5, 5), (64, 1), (3, 7))]
    return {'flat': [s + (h,) for s in more for h in ('plain', 'rest', 'pad')],
            'table': [s + (k,) for s in more for k in 'FIL'],
            'audio': [(r, d * a, d * b, c) for r, d in (
                ('SR96000', 10 ** 12 // 96000), ('SR22050', 10 ** 12 // 22050),
                ('SR16000', 10 ** 12 // 16000))
                for a, b in ((2048, 1024), (512, 512), (1000, 333))
                for c in (1, 2)]}


def c03(m):
    return {'explicit': [(k, h) for k in (7, 8, 10)
                         for h in ('plain', 'even')],
            'hertz': [(k, a, b) for k in (7, 9) for a, b in
                      ((True, False), (False, True), (True, True))],
            'array': [(k, n, f) for k in m.KINDS for n in (12, 16)
                      for f in ('band', 'hertz')],
            'adaptive': [(k, t) for k in (5, 6) for t in (False, True)]}


def c04(m):
    return {'overlap': [(6,), (7,)],
            'linear': [(12,), (16,), (32,)],
            'geometric': [(20, 20000, 128), (1, 2, 17)],
            'equality': [(5, 5), (3, 4), (6, 6)],
            'sample_rates': [(n, r) for n in (16, 32) for r in
                             ('SR96000', 'SR44100', 'SR11025')]}


def c06(m):
    more = [(w, s) for w in (9, 10, 12, 16, 31) for s in (1, 2, 3, 5, w - 1, w)]
    return {'no_pad': [(a, b, c) for a, b in more for c in (0, 3)],
            'padded': [(a, b, c) for a, b in more for c in (0, 3)],
            'strided': [(a, b, c) for a, b in m.WS[12:] for c in (0, 3)]}


def c08(m):
    return {'any_rate': [(a, a + 250) for a in (400, 2000, 11000, 22000, 32000,
                                                64000, 95900, 176300)]}


def c09(m):
    T2 = m.T2
    return {'array': [
        (('time', 'time:ms', 'freq:explicit'), 2, 'float64', True),
        (('time', 'freq:linear'), 3, 'float32', False),
        (('id', 'freq:mel'), 2, 'float64', False),
        (('time:s/ms', 'id', 'freq:bark'), 1, 'float64', False),
        ((T2, 'freq:geometric'), 2, 'float32', False),
        (('time', 'adaptive:explicit'), 2, 'float64', True)],
        'audio': [(r, c, k) for r in ('SR96000', 'SR44100', 'SR11025')
                  for c in (1, 2) for k in (3,)]}


def c10(m):
    return {'single': [(5,)], 'count': [(3,), (5,)],
            'packed': [(6, 2), (8, 2), (3, 4)], 'strided': [(3, 3, 2)]}


def c11(m):
    return {'nearest': [(1, 4, 2, True, False, 2), (2, 3, 2, True, True, 2),
                        (4, 2, 1, True, False), (1, 4, 3, False, True, 4)],
            'crowd': [(9, 4, 4, False), (8, 3, 3, True)],
            'anything': [(3, 2), (1, 4)],
            'failing': [(3, 2)],
            'slices': [(1, (2, 2), False), (2, (1, 2), True)],
            'queries': [(128, 'uint8'), (33, 'bool')],
            'events': [((2, 2), False), ((1, 1, 1), False)]}


def c12(m):
    return {'build': [(5, ('ps',)), (4, m.MIX)],
            'select': [(3, m.MIX, u, o) for u in ('ps', 's')
                       for o in (False, True)] +
            [(4, ('ps',), 'ps', o) for o in (False, True)],
            'concat': [(3, 2, m.MIX), (2, 3, ('ps',)), (3, 3, ('ps',))],
            'stored': [(4, m.MIX, (2,)), (3, m.MIX, (1, 2))]}


def c13(m):
    more = [(a, b) for a in ('ps', 'us', 'ms', 's') for b in
            ('ps', 'us', 'ms', 's') if (a, b) not in m.PAIRS]
    return {'one': more, 'two': more, 'hashes': more, 'cut': [(5,)]}


def c14(m):
    return {'tile': [(c,) for c in itertools.product((0, 1, 2), repeat=4)
                     if sum(c) <= 4] + [((3, 2),), ((2, 3),), ((4,),)],
            'peaks': [((3,), 4, None), ((2, 1), 5, None), ((1, 1, 1), 4, 'min')],
            'transience': [((2, 2), 4), ((1, 1), 6)],
            'flux': [((2, 2), 2, False), ((4,), 2, False), ((3,), 3, False)]}


def c17(m):
    return {'reservoir': [(3, (2, 2), False), (4, (1, 2), True)],
            'random_slots': [(4, (2, 2)), (3, (2, 1, 1))],
            'multiplexed': [(3, (2, 1)), (2, (1, 1, 1))],
            'parallel': [(4, (2, 2), 3)],
            'parallel_multiplexed': [((2, 1), 1)],
            'shuffled': [(3, (2, 2), False), (2, (1, 1, 1), True)],
            'sampler': [(3, (5,), False), (3, (1, 4), True), (2, (3, 2), False),
                        (4, (5,), True)],
            'infinite': [((2, 1, 3), 2, False, slice(None), 1),
                         ((3, 3), 4, False, slice(None), 2)]}


def c18(m):
    return {'single': [(k, s, u) for u in ('plain', 'units') for k, s in (
                ('multiply', (2, 2)), ('weighted', (3,)), ('slicer', (4,)),
                ('instance', (3,)), ('log', (2,)), ('mulaw', (2,)),
                ('reshape', (4,)))],
            'chain': [
                (('multiply', 'slicer', 'weighted'), (3,), 'plain'),
                (('slicer', 'flatten', 'reshape'), (1, 2), 'units'),
                (('meanstd', 'slicer', 'flatten'), (1, 2), 'units'),
                (('flatten', 'multiply', 'log'), (1, 1), 'units'),
                (('multiply', 'weighted', 'slicer', 'reshape'), (2,), 'plain')],
            'simhash': [(3, 1, 'units'), (2, 2, 'plain')],
            'kmeans': [(3, 2, 'units'), (4, 1, 'plain')]}


def c19(m):
    return {'mu_law': [(1023, 1), (1, 2), (65535, 1)],
            'unit_scale': [((4,), None), ((5,), 0), ((2, 3), -1), ((3, 2), 0)],
            'instance_scale': [((4,), -1), ((2, 3), -1), ((3, 2), 0)],
            'one_hot': [(6, -1), (8, 0)],
            'categorical': [(15, (2,), True), (255, (2,), False)]}


def c20(m):
    return {'overlap': [(r, W, H, K) for r in ('SR22050', 'SR96000')
                        for W, H, K in ((8, 4, 4), (9, 2, 5), (16, 8, 3),
                                        (32, 7, 4))],
            'cosine': [(k, r, W, H, K) for k in ('DCT', 'DCTIV')
                       for r, W, H, K in (('SR22050', 12, 6, 3),
                                          ('SR44100', 16, 8, 2))],
            'modified': [('SR22050', 10, 2), ('SR48000', 5, 3)],
            'fourier': [('SR44100', (2, 7), -1, 1), ('SR44100', (9, 2), 0, 3),
                        ('SR11025', (16,), 0, 0)],
            'unfourier': [('SR22050', 16, 8, 3), ('SR48000', 64, 32, 2)],
            'decomposed': [('SR11025', 1, 16, (2, 4, 8, 16), False, 1),
                           ('SR96000', 3, 8, (8, 4), True, 1)],
            'windows': [(n, d, s) for n in (8, 13) for d in (float,)
                        for s in ('left', 'right')]}


def c21(m):
    return {'sines': [(r, (110., 220., 330.25), 'list') for r in m.RATES],
            'ticks': [(60, 12), (10, 5), (100, 15)],
            'channels': [('SR22050', (4, 4)), ('SR44100', (5,))],
            'mixing': [(r, r, (3, 2)) for r in m.RATES]}


def c22(m):
    return {'history': [((2, 2), .5, 'float64', 4), ((1,), .3, 'float32', 4),
                        ((4,), 1, 'int64', 3), ((3, 2), .34, 'float64', 3)],
            'growth': [(8, .5), (10, .1), (7, .3), (3, 4)]}


def c23(m):
    return {'freesound': [(5, 7)], 'archive': [(4,)], 'drums': [(5,)],
            'several': [(4,)], 'cache': [(3, True)]}


def c24(m):
    return {'merge': [((2, 3), (1, 4)), ((5,), (2, 2, 1)),
                      ((1, 2), (2, 1), (3,)), ((2, 2), (4,), (1, 3))],
            'pooled': [((4,), False, 3, 'sum'), ((2, 2), True, 3, 'max'),
                       ((1, 3), False, 3, 'sum')],
            'columns': [(c, k) for c in [(3, 1), (1, 1, 2)] for k in
                        ('sum', 'max', 'slice', 'binarize', 'centroid')],
            'weighting': [((4,), 0, 'right', 'mul'), ((2, 4), 1, 'right', 'mul'),
                          ((3, 2, 2), 2, 'left', 'mul')],
            'adaptive': [((3, 1, 2, 2), 'mul'), ((2, 2, 2), 'div')]}


def c25(m):
    four = [((2, 1, 2, 2), 'tifi')]
    return {'elementwise': [s + (o,) for s in four + m.THREE[1:] for o in
                            ('add', 'subtract', 'multiply', 'greater',
                             'equal')],
            'reduction': [(s, k, o, ax, kd) for s, k in four
                          for o in ('sum', 'max') for kd in (False, True)
                          for ax in [None, 0, 1, 2, 3, -1, -2, (0, 3), (1, 2),
                                     (0, 1, 2, 3)]],
            'order': [(s, k, h) for s, k in four for h in
                      list(itertools.permutations(range(4))) + ['T']],
            'dots': [((4, 2), 'tf', (2, 4), 'fi'), ((2, 2, 2), 'tif', (2,), '')],
            'packed': [(24, 'ti'), (33, 'ti')]}


def c26(m):
    return {'buffer': [(5, False)],
            'streaming': [(5, 44100, 2, 2, False, 2000000, 30000000),
                          (6, 11025, 1, 2, None, 64, 20000)]}


def c27(m):
    return {'seconds': [(16000, 1, 2, 3600), (44100, 2, 2, 3600)],
            'samples': [(44100, 2, 2, 600), (11025, 1, 2, 600),
                        (96000, 1, 2, 600)],
            'anywhere': [(44100, 2, 2, 600), (16000, 1, 2, 600)]}


def c28(m):
    return {'gathered': [(5, 1, 'any', 'scale'), (4, 2, 'any', 'function'),
                         (3, 3, 'identity', 'node')],
            'bark': [(64, 8, 22050, (2, 1), float)],
            'auditory': [(k, 20, 20000, 200) for k in ('Bark', 'Mel')],
            'chroma': [(128, 55, 1760, 5000)],
            'bfcc': [(12, 6, 2, (2, 1))],
            'flatness': [(6, 1), (2, 3)],
            'shifted': [(8, -1, (8,), None, 3), (6, 1, (2, 6), (1, 4), 2)]}


def c29(m):
    return {'search': [('hamming', (2, 2), 1, 3, 'query'),
                       ('hamming', (1, 1, 1), 2, 2, 'query'),
                       ('cityblock', (2, 2), 1, 3, 'query')]}


def c30(m):
    return {}


def c31(m):
    return {'chain': [('windowed', 'SR22050', 6, 3, (7, 6)),
                      ('stft', 'SR48000', 6, 2, (6, 6)),
                      ('stft', 'SR96000', 8, 4, (4, 4, 8))],
            'applied': [(k, r) for k in ('windowed', 'dct', 'fft', 'centroid')
                        for r in ('SR96000', 'SR48000', 'SR16000', 'SR11025')]}


def c32(m):
    return {'supervised': [(3, .4, 3), (4, .5, 3), (5, .4, 1)],
            'plain': [(3, 2), (2, 3)], 'triplet': [(3, 1), (2, 3)],
            'gan': [(3, False, 1), (2, True, 2), (3, True, 1)],
            'application': [(5,), (6,)]}


def c33(m):
    return {'dct': [((3, 8),), ((2, 16),)],
            'resample': [((1, 8), (.5, 1.25, 2, .3)), ((1, 16), (.75,))],
            'bands': [((1, 16), (.125, .5, .25, 1)), ((2, 12), (.5, 1))],
            'short': [(12, 4, 2, 2), (16, 8, 4, 1)],
            'norms': [('unit', (3, 2)), ('unit', (1, 3)),
                      ('sample', (1, 3, 2))]}
