from fractions import Fraction as Q
import numpy as np
from common import *
from inference.grid._gridquad import qgt1d, qgt2d


def gen(g, i):
    dim = g.choice([1, 1, 2])
    big = g.bool(.05)
    nx = g.choice([1, 2, 3, 4, 7, 12]) if not big else g.int(40, 300)
    ny = g.choice([1, 2, 3, 4, 7, 12]) if not big else g.int(2, 40)
    lo = g.choice([0., 0., -4.])
    lev = [g.real(lo, 6.) for _ in range(3)]

    def val():
        return g.choice(lev) if g.bool(.4) else g.real(lo, 6.) * g.choice([1., 1., 1e-3, 1e5])
    return dict(dim=dim, a=[val() for _ in range(nx)] if dim == 1 else [[val() for _ in range(ny)] for _ in range(nx)],
                crit=g.choice(lev) if g.bool(.5) else g.real(-5, 7), crit2=g.choice(lev) if g.bool(.3) else g.real(-5, 7),
                form=g.choice(['c', 'c', 'f', 'list', 'int', 'view']))


def nontrivial(c):
    return len(c['a']) > 1


def seg(a, b, c):
    hi, lo = max(a, b), min(a, b)
    if lo > c:
        return (a + b) / 2
    if hi <= c:
        return Q(0)
    return (hi - c) / (hi - lo) * (hi + c) / 2


def line(v, c):
    return sum((seg(a, b, c) for a, b in zip(v, v[1:])), Q(0))


def exact(a, c, dim):
    c = Q(c)
    if dim == 1:
        return line([Q(float(x)) for x in a], c)
    rows = [line([Q(float(x)) for x in r], c) for r in a]
    n = len(rows)
    return sum((r / 2 if i in (0, n - 1) else r for i, r in enumerate(rows)), Q(0))


def check(case):
    a, dim = np.array(case['a'], float), case['dim']
    form = case['form']
    if form == 'int':
        a = np.floor(np.clip(a, -1e6, 1e6)).astype(int)
    given = a
    if form == 'f':
        given = np.asfortranarray(a)
    elif form == 'list':
        given = a.tolist()
    elif form == 'view':
        w = np.zeros(tuple(2 * s for s in a.shape))
        given = w[::2] if dim == 1 else w[::2, ::2]
        given[...] = a
    keep = np.array(given, copy=True)
    f = qgt1d if dim == 1 else qgt2d
    scale = float(np.abs(a).sum()) + abs(case['crit']) + 1.
    tol = 1e-9 * scale
    r = f(given, case['crit'])
    need(np.array_equal(np.array(given), keep), 'the tabulated array was modified')
    e = float(exact(a, case['crit'], dim))
    need(abs(r - e) <= tol, 'integral above %r: got %r, should be %r' % (case['crit'], r, e))
    lo, hi = float(a.min()), float(a.max())
    flat = lambda a: sum(.5 * (x + y) for x, y in zip(a, a[1:]))
    if dim == 1:
        full = flat(a.tolist())
    else:
        rows = [flat(x) for x in a.tolist()]
        full = sum(rows) - .5 * rows[0] - .5 * rows[-1] if len(rows) > 1 else .5 * rows[0]
    need(abs(f(given, lo - 1. - abs(lo) * 1e-3) - full) <= tol, 'below the minimum it is not the trapezoid rule')
    need(f(given, hi) == 0. and f(given, hi + 1.) == 0., 'not zero at or above the maximum')
    if lo >= 0:
        c1, c2 = sorted((case['crit'], case['crit2']))
        need(f(given, c1) >= f(given, c2) - tol, 'the integral increases with the critical value')
    need(f(given, case['crit']) == r, 'a repeated call gives another result')
    need(np.array_equal(np.array(given), keep), 'the tabulated array was modified')
