"""C12 quadrature above a threshold (Fortran qgt1d / qgt2d)."""
import z3
from z3 import And, Or, Implies, Not, If
from engine import loader, fext
from engine.core import *
from engine.arr import NArr, zint
from engine.lemmas import mksum
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'proof'
FILES = ['grid/_gridquad.f']
FUNCTIONS = ['grid._gridquad.qgt1d', 'grid._gridquad.qgt2d']
EXTS = ['_gridquad']
RUN_S = 6
TASK_S = 60
ERR = (IndexError, TypeError, ValueError, AttributeError, NameError, ZeroDivisionError, KeyError, RuntimeError)


def seg(a, b, c):
    """integral over one unit cell of the line from a to b, where it exceeds c"""
    hi, lo = If(a > b, a, b), If(a > b, b, a)
    return If(And(a > c, b > c), (a + b) / 2, If(Or(a > c, b > c), (hi - c) / (hi - lo) * (hi + c) / 2, z3.RealVal(0)))


def mod():
    fext.use('inference.grid._gridquad')
    return fext.module('q', 'grid/_gridquad.f')


def run(f, *a):
    try:
        r = f(*a)
    except ERR as e:
        CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
        raise PathEnd()
    CTX.cover('returned')
    return toreal(r)


def unchanged(A, a0):
    j = tuple(CTX.fresh('j', I) for _ in range(A.ndim))
    CTX.prove('the tabulated array is not modified', A.store.cur(j) == a0(j))


def U(*k):
    """arbitrary table entries"""
    return z3.Function('u%d' % len(k), *([I] * len(k) + [R]))(*k)


VALUES = {                       # every table with the stated relation to crit
    'any': lambda c, *k: U(*k),
    'above crit': lambda c, *k: c + If(U(*k) > 0, U(*k), z3.RealVal(1)),
    'at most crit': lambda c, *k: c - If(U(*k) > 0, U(*k), z3.RealVal(0)),
    'non-negative': lambda c, *k: If(U(*k) > 0, U(*k), z3.RealVal(0)),
}


def spec1(a, n, c):
    return mksum(lambda k: seg(a(k), a(k + 1), c), 0, n - 1)


def spec2(a, nx, ny, c, seg=seg):
    """the row integrals, combined by the trapezoid rule over the rows"""
    row = lambda i: mksum(lambda k: seg(a(i, k), a(i, k + 1), c), 0, ny - 1)
    return mksum(lambda i: If(Or(i == 0, i == nx - 1), row(i) / 2, row(i)), 0, nx)


def setup(values, dim):
    m = mod()
    c = z3.Real('crit')
    ns = [z3.Int('nx'), z3.Int('ny')][:dim]
    CTX.assume([SInt(n) >= 1 for n in ns])
    a = lambda *k: VALUES[values](c, *k)
    A = NArr.fromfn(tuple(SInt(n) for n in ns), lambda j: a(*j))
    return m, c, ns, a, A, A.store.cur


def one(values):
    def path():
        m, c, (n,), a, A, a0 = setup(values, 1)
        r = run(m.qgt1d, A, SReal(c))
        if values == 'any':
            CTX.prove('1-d: sum over the cells of the integral of the line where it exceeds crit', r == spec1(a, n, c))
        elif values == 'above crit':
            CTX.prove('1-d: the trapezoid rule when every value exceeds crit', r == mksum(lambda k: (a(k) + a(k + 1)) / 2, 0, n - 1))
        else:
            CTX.prove('1-d: zero when no value exceeds crit', r == 0)
        unchanged(A, a0)
    explore(path)


def two(values):
    def path():
        m, c, (nx, ny), a, A, a0 = setup(values, 2)
        r = run(m.qgt2d, A, SReal(c))
        if values == 'any':
            CTX.prove('2-d: trapezoid rule over the rows of the row integrals', r == spec2(a, nx, ny, c))
        elif values == 'above crit':
            CTX.prove('2-d: the product trapezoid rule when every value exceeds crit', r == spec2(a, nx, ny, c, lambda x, y, c: (x + y) / 2))
        else:
            CTX.prove('2-d: zero when no value exceeds crit', r == 0)
        unchanged(A, a0)
    explore(path)


def mono(dim):
    def path():
        m, c, ns, a, A, a0 = setup('non-negative', dim)
        c2 = z3.Real('crit2')
        CTX.assume(c <= c2)
        f = m.qgt1d if dim == 1 else m.qgt2d
        r1, r2 = run(f, A, SReal(c)), run(f, A, SReal(c2))
        if dim == 2:
            nx, ny = ns
            CTX.prove('2-d: value at crit', r1 == spec2(a, nx, ny, c))
            CTX.prove('2-d: value at crit2', r2 == spec2(a, nx, ny, c2))
            i = CTX.fresh('i', I)
            row = lambda i, c: mksum(lambda k: seg(a(i, k), a(i, k + 1), c), 0, ny - 1)
            CTX.prove('row integrals are monotone', row(i, c) >= row(i, c2))
            CTX.prove('row integrals are not negative', row(i, c) >= 0)
            # hence, for any row values q2 and q1 = q2 + d, d >= 0:
            q, d = z3.Function('q', I, R), z3.Function('d', I, R)
            pos = lambda x: If(x > 0, x, z3.RealVal(0))
            w = lambda f: mksum(lambda i: If(Or(i == 0, i == nx - 1), f(i) / 2, f(i)), 0, nx)
            CTX.prove('2-d: raising crit never raises the integral of a non-negative table', w(lambda i: q(i) + pos(d(i))) >= w(q))
            CTX.prove('2-d: the integral of a non-negative table is not negative', w(lambda i: pos(q(i))) >= 0)
            return
        CTX.prove('%d-d: raising crit never raises the integral of a non-negative table' % dim, r1 >= r2)
        CTX.prove('%d-d: the integral of a non-negative table is not negative' % dim, r1 >= 0)
    explore(path)


def cell():
    """what seg means: the part of the cell where the line exceeds c is an interval
    (t0, t1), and seg is its length times the mean of the line's values at its ends"""
    def path():
        a, b, c, t = (z3.Real(x) for x in 'abct')
        L = lambda t: a + (b - a) * t
        ts = (c - a) / (b - a)
        t0 = If(And(a <= c, b > c), ts, z3.RealVal(0))
        t1 = If(And(a > c, b <= c), ts, If(And(a <= c, b <= c), z3.RealVal(0), z3.RealVal(1)))
        CTX.prove('the interval lies in the cell', And(0 <= t0, t0 <= t1, t1 <= 1))
        CTX.prove('the line exceeds c inside', Implies(And(t0 < t, t < t1), L(t) > c))
        CTX.prove('and nowhere else', Implies(And(0 <= t, t <= 1, Or(t < t0, t > t1)), L(t) <= c))
        CTX.prove('seg is the integral of the line over the interval', seg(a, b, c) == (t1 - t0) * (L(t0) + L(t1)) / 2)
    explore(path)


ASSUMPTIONS = ['real arithmetic for double precision', 'the arrays reach Fortran by reference or as a copy (f2py)']
TASKS = [('cell', cell)] + [('%d-d, values %s' % (d, v), lambda d=d, v=v: (one if d == 1 else two)(v))
                            for d in (1, 2) for v in ('any', 'above crit', 'at most crit')] + \
    [('monotone %d-d' % d, lambda d=d: mono(d)) for d in (1, 2)]
