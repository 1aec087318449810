"""setup_cmd: the tools are there and the symbolic layers agree with numpy."""
import sys


def main():
    import numpy as np
    import z3
    import zounds
    from . import td
    from .td import TD
    n = 0
    units = ('h', 'm', 's', 'ms', 'us', 'ns', 'ps')
    for u in units:
        for v in (0, 1, 7, -3, 1000):
            for u2 in units:
                for v2 in (1, 3, -2):
                    a, b = np.timedelta64(v, u), np.timedelta64(v2, u2)
                    x, y = TD(a), TD(b)
                    for op in ('__add__', '__sub__', '__lt__', '__eq__',
                               '__truediv__', '__floordiv__', '__mod__'):
                        try:
                            r = getattr(a, op)(b)
                        except (TypeError, OverflowError):
                            continue
                        q = getattr(x, op)(y)
                        q = getattr(q, 'v', q) if not isinstance(
                            q, TD) else q
                        if isinstance(q, TD):
                            ok = q.ps() == TD(r).ps()
                        else:
                            ok = bool(q == r)
                        n += 1
                        if not ok:
                            print('selftest: %s %s %s: %s != %s' % (
                                a, op, b, q, r))
                            return 1
    print('selftest ok (%d comparisons), z3 %s, zounds from %s' % (
        n, z3.get_version_string(), zounds.__file__))
    return 0
