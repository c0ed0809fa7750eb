"""C10: MinBracket, brent, linmin, powell: returned value = function at the
returned point, never above the starting values; the bracket brackets; the line
search stays inside it.  The function is an arbitrary pure function."""
import z3
from z3 import And, Or, Implies, Not
from engine import loader
from engine.core import *
from engine.arr import NArr, zint
from engine.lemmas import FV

LEVEL = 'proof'
FILES = ['utils/nrmin.py']
FUNCTIONS = ['utils.nrmin.MinBracket.__init__', 'utils.nrmin.brent', 'utils.nrmin.linmin', 'utils.nrmin.powell']
EXTS = []
ASSUMPTIONS = ['floats as real numbers', 'the minimised function is pure and total',
               'products and quotients of two unknowns: any function with the sign and order laws of multiplication (engine/lemmas.py)',
               'termination is not claimed (brent and powell give up with IterErr)',
               'starting points of the bracket differ; tolerance of the line search is positive']
RUN_S = 6
TASK_S = 200
F = z3.Function('F', z3.RealSort(), z3.RealSort())


def mod():
    return loader.fresh_import('inference.utils.nrmin')


class BrakInv:
    def __init__(self, s1, s2):
        self.s = (s1, s2)

    def invs(self, lid, v):
        o = v.env.get('self')
        if o is None or not hasattr(o, 'x2'):
            return
        x1, xm, x2, f1, fm, f2 = [toreal(getattr(o, a)) for a in ('x1', 'xm', 'x2', 'f1', 'fm', 'f2')]
        yield 'f1', f1 == F(x1)
        yield 'fm', fm == F(xm)
        yield 'f2', f2 == F(x2)
        yield 'fm<=f1', fm <= f1
        yield 'order', Or(And(x1 < xm, xm < x2), And(x1 > xm, xm > x2))
        for i, s in enumerate(self.s):
            yield 'start%d' % i, fm <= F(s)
            yield 'start1%d' % i, Or(f1 <= F(s), fm <= F(s))


def bracket():
    m = mod()

    def path():
        CTX.opaque = True
        a, b = real('a'), real('b')
        CTX.assume(a._z != b._z)
        CTX.loop_hints = [BrakInv(a._z, b._z)]
        try:
            o = m.MinBracket(lambda x: SReal(F(toreal(x))), a, b)
        except ZeroDivisionError:
            CTX.prove('bracketing does not divide by zero', z3.BoolVal(False))
            return
        CTX.cover('bracket found')
        x1, xm, x2, f1, fm, f2 = [toreal(getattr(o, n)) for n in ('x1', 'xm', 'x2', 'f1', 'fm', 'f2')]
        CTX.prove('the middle point lies between the outer ones', And(x1 <= xm, xm <= x2))
        CTX.prove('the middle point is not higher than the outer ones', And(fm <= f1, fm <= f2))
        CTX.prove('the stored values are the function at the stored points', And(f1 == F(x1), fm == F(xm), f2 == F(x2)))
        CTX.prove('the middle value is not larger than at the starting points', And(fm <= F(a._z), fm <= F(b._z)))
    explore(path)


class BrentInv:
    def __init__(self, a0, b0, v0, g=None, least=None):
        self.c, self.g, self.m = (a0, b0, v0), g, least
    NAMES = ('a', 'b', 'x', 'fx', 'w', 'fw', 'v', 'fv')

    def named(self, v):
        return all(n in v.env for n in self.NAMES)

    def invs(self, lid, v):
        a0, b0, v0 = self.c
        if not self.named(v):
            return
        a, b, x, fx, w, fw, vv, fv = [toreal(v.env[n]) for n in self.NAMES]
        yield 'fx', fx == F(x)
        yield 'fw', fw == F(w)
        yield 'fv', fv == F(vv)
        yield 'start', fx <= F(v0)
        yield 'in', And(a <= x, x <= b)
        yield 'a', a0 <= a
        yield 'b', b <= b0
        if self.g is not None and self.m is None:
            yield 'best', fx <= toreal(self.g.best)
        if self.m is not None:
            yield 'least', And(a <= self.m, self.m <= b)
            yield 'at', Or(x == toreal(self.g.x), x == toreal(self.g.y))
            yield 'tie', F(toreal(self.g.x)) == F(toreal(self.g.y))

    def templates(self, lid, v, an):
        """for code written differently: every local against the bracket / the function"""
        if self.named(v):
            return
        a0, b0, v0 = self.c
        sc = {n: toreal(x) for n, x in v.scalars().items() if kind(x) in 'ri'}
        for n, z in sc.items():
            yield 'lo ' + n, a0 <= z
            yield 'hi ' + n, z <= b0
            yield 'st ' + n, z <= F(v0)
            if self.g is not None and self.m is None:
                yield 'best ' + n, z <= toreal(self.g.best)
            if self.m is not None:
                yield 'least lo ' + n, z <= self.m
                yield 'least hi ' + n, self.m <= z
                yield 'at1 ' + n, z == toreal(self.g.x)
                yield 'at2 ' + n, z == toreal(self.g.y)
            for n2, z2 in sc.items():
                if n != n2:
                    yield 'F %s %s' % (n, n2), z == F(z2)
                    if n < n2:
                        yield 'le %s %s' % (n, n2), z <= z2
                        yield 'ge %s %s' % (n, n2), z >= z2


class Brak:
    _vc_state = True


class Ghost:
    """the smallest value seen so far"""
    _vc_state = True


def brak(lo='x1', mid='xm', hi='x2'):
    o = Brak()
    o.x1, o.xm, o.x2 = real('x1'), real('xm'), real('x2')
    CTX.assume([o.x1 <= o.xm, o.xm <= o.x2, o.x1 < o.x2])
    for n in ('1', 'm', '2'):
        setattr(o, 'f' + n, SReal(F(getattr(o, 'x' + n)._z)))
    CTX.assume([o.fm <= o.f1, o.fm <= o.f2])
    return o


def brent():
    m = mod()

    def path():
        CTX.opaque = True
        o = brak()
        tol, mx = real('tol'), integer('maxit')
        CTX.assume(tol > 0)
        x1, xm, x2 = o.x1._z, o.xm._z, o.x2._z
        CTX.loop_hints = [BrentInv(x1, x2, xm)]
        CTX.roots = [o]

        def f(x):
            z = toreal(x)
            CTX.prove('the function is evaluated inside the bracket only', And(x1 <= z, z <= x2))
            return SReal(F(z))
        try:
            x, fx = m.brent(f, o, tol, mx)
        except m.IterErr:
            CTX.cover('gives up')
            CTX.prove('gives up with IterErr', z3.BoolVal(True))
            return
        except (ZeroDivisionError, NameError):
            CTX.prove('the search does not fail', z3.BoolVal(False))
            return
        CTX.cover('returns')
        x, fx = toreal(x), toreal(fx)
        CTX.prove('the returned value is the function at the returned point', fx == F(x))
        CTX.prove('the returned point is inside the bracket', And(x1 <= x, x <= x2))
        CTX.prove('the returned value is not larger than at the middle of the bracket', fx <= F(xm))
        CTX.prove('the bracket given is not modified', And(toreal(o.x1) == x1, toreal(o.xm) == xm, toreal(o.x2) == x2))
    explore(path)


def brent_best():
    """the returned value is the smallest of all values the search has seen"""
    m = mod()

    def path():
        CTX.opaque = True
        o, g = brak(), Ghost()
        tol, mx = real('tol'), integer('maxit')
        CTX.assume(tol > 0)
        g.best = real('best0', False)
        CTX.assume(g.best._z >= F(o.xm._z))
        CTX.loop_hints = [BrentInv(o.x1._z, o.x2._z, o.xm._z, g=g)]
        CTX.roots = [o, g]

        def f(x):
            z = F(toreal(x))
            b = toreal(g.best)
            g.best = SReal(z3.If(z < b, z, b))
            return SReal(z)
        try:
            x, fx = m.brent(f, o, tol, mx)
        except (m.IterErr, ZeroDivisionError, NameError):
            return
        CTX.cover('returns')
        CTX.prove('the returned value is the smallest of all values evaluated', toreal(fx) <= toreal(g.best))
    explore(path)


def brent_accuracy():
    """a function with a single minimum inside the bracket: the search ends within
    twice the tolerance of it"""
    m = mod()

    def path():
        CTX.opaque = True
        o = brak()
        tol, mx = real('tol'), integer('maxit')
        CTX.assume(tol > 0)
        x1, xm, x2 = o.x1._z, o.xm._z, o.x2._z
        least = z3.Real('least')
        CTX.assume(And(x1 <= least, least <= x2))
        g = Ghost()
        g.x = g.y = o.xm            # best points so far (a tie goes to the new / stays with the old)

        def single(p, q):
            """F falls up to the minimum and rises after it, for one pair of points"""
            return And(Implies(And(p < q, q <= least), F(p) > F(q)), Implies(And(p < q, p >= least), F(p) < F(q)))

        def f(x):
            z, px, py = toreal(x), toreal(g.x), toreal(g.y)
            for p in (px, py):
                CTX.assume(And(single(z, p), single(p, z)))
            g.x = SReal(z3.If(F(z) <= F(px), z, px))
            g.y = SReal(z3.If(F(z) < F(py), z, py))
            return SReal(F(z))
        CTX.loop_hints = [BrentInv(x1, x2, xm, g=g, least=least)]
        CTX.roots = [o, g]
        try:
            x, fx = m.brent(f, o, tol, mx)
        except (m.IterErr, ZeroDivisionError, NameError):
            return
        CTX.cover('returns')
        d = x - SReal(least)
        near = tol * abs(x) + 1e-10
        CTX.prove('the returned point is within twice the tolerance of the only minimum', [d <= 2 * near, -d <= 2 * near])
    explore(path)


def vec(a, n):
    k = z3.Int('k#v')
    fr = a.frozen()
    return FV(z3.Lambda([k], fr((k,))), toint(n))


def vfun(n):
    def f(v):
        if not isinstance(v, NArr) or v.ndim != 1:
            raise Unsupported('function called with %r' % (v,))
        CTX.prove('the function is called with a vector of n numbers', toint(v._vc_len()) == toint(n))
        return SReal(vec(v, n))
    return f


def same_content(name, a, fr, n):
    j = integer('jf', False)
    CTX.assume(And(j._z >= 0, j._z < toint(n)))
    CTX.prove(name, a.zat((j._z,)) == fr((j._z,)))


def linmin():
    m = mod()

    def path():
        n = integer('n')
        CTX.assume(n >= 1)
        pt, dr = NArr.fresh('pt', (n,)), NArr.fresh('dr', (n,))
        pf, df = pt.frozen(), dr.frozen()
        calls = []

        class MB:
            """contract of MinBracket (task bracket)"""
            _vc_state = True

            def __init__(self, f, x1, x2):
                CTX.contracts.add('utils.nrmin.MinBracket.__init__')
                CTX.prove('bracketing starts from two different points', toreal(x1) != toreal(x2))
                self.x1, self.xm, self.x2 = real('x1', False), real('xm', False), real('x2', False)
                self.f1, self.fm, self.f2 = f(self.x1), f(self.xm), f(self.x2)
                CTX.assume([self.x1 <= self.xm, self.xm <= self.x2, self.x1 < self.x2])
                CTX.assume([self.fm <= self.f1, self.fm <= self.f2])
                CTX.assume([self.fm <= f(x1), self.fm <= f(x2)])

        def br(f, bracket, tol=1.e-6, maxit=100):
            """contract of brent (task brent)"""
            CTX.contracts.add('utils.nrmin.brent')
            CTX.prove('the line search gets a bracket', [bracket.x1 <= bracket.xm, bracket.xm <= bracket.x2, bracket.x1 < bracket.x2])
            CTX.prove('the line search gets a positive tolerance', toreal(tol) > 0)
            if CTX.branch(boolean('iter_err')._z):
                raise m.IterErr('x')
            x = real('xmin', False)
            fx = f(x)
            CTX.assume([bracket.x1 <= x, x <= bracket.x2, fx <= f(bracket.xm)])
            return x, fx
        m.MinBracket, m.brent = MB, br
        tol = real('tol')
        CTX.assume(tol > 0)
        try:
            p2, d2, fm = m.linmin(vfun(n), pt, dr, tol)
        except m.IterErr:
            return
        CTX.cover('returns')
        CTX.prove('the result is a vector of n numbers', toint(p2._vc_len()) == toint(n))
        CTX.prove('the returned value is the function at the returned point', toreal(fm) == vec(p2, n))
        CTX.prove('the returned value is not larger than at the start', toreal(fm) <= FV(z3.Lambda([z3.Int('k#v')], pf((z3.Int('k#v'),))), toint(n)))
        same_content('the starting point is not modified', pt, pf, n)
        same_content('the direction given is not modified', dr, df, n)
    explore(path)


class PowInv:
    def __init__(self, n, F0):
        self.n, self.F0 = n, F0

    def templates(self, lid, v, an):
        arrs = [(k, a) for k, a in sorted(v.env.items()) if isinstance(a, NArr) and a.ndim == 1]
        for nm, x in sorted(v.scalars().items()):
            if kind(x) == 'i':
                yield 'ix0 ' + nm, toint(x) >= 0
                yield 'ixn ' + nm, toint(x) < toint(self.n)
            if kind(x) != 'r':
                continue
            z = toreal(x)
            yield 'le0 ' + nm, z <= self.F0
            for k, a in arrs:
                yield 'F %s %s' % (nm, k), z == vec(a, self.n)
    invs = None


def powell(given, shuffle):
    m = mod()

    def path():
        n = integer('n')
        CTX.assume(n >= 1)
        p = NArr.fresh('p', (n,))
        pf = p.frozen()
        f = vfun(n)
        F0 = vec(p, n)
        h = PowInv(n, F0)
        h.invs = lambda lid, v: ()
        CTX.loop_hints = [h]

        def lm(func, pt, drxn, tol=1.e-4):
            """contract of linmin (task linmin)"""
            CTX.contracts.add('utils.nrmin.linmin')
            CTX.prove('line search: point and direction have n numbers', And(toint(pt._vc_len()) == toint(n), toint(drxn._vc_len()) == toint(n)))
            CTX.prove('line search: positive tolerance', toreal(tol) > 0)
            if CTX.branch(boolean('iter_err')._z):
                raise m.IterErr('x')
            q, d = NArr.fresh('q', (n,), inp=False), NArr.fresh('d', (n,), inp=False)
            r = real('r', False)
            CTX.assume(And(r._z == vec(q, n), r._z <= vec(pt, n)))
            return q, d, r
        m.linmin = lm
        dr = NArr.fresh('dr', (n, n)) if given else None
        mx, ft = integer('maxit'), real('ftol')
        try:
            q, fq, it = m.powell(f, p, dr, ft, mx, None, shuffle)
        except m.IterErr:
            CTX.cover('gives up')
            CTX.prove('gives up with IterErr', z3.BoolVal(True))
            return
        CTX.cover('returns')
        CTX.prove('the returned value is the function at the returned point', toreal(fq) == vec(q, n))
        CTX.prove('the returned value is not larger than at the start', toreal(fq) <= F0)
        same_content('the starting point is not modified', p, pf, n)
    explore(path)


TASKS = [('bracket', bracket), ('brent', brent), ('brent: smallest value seen', brent_best), ('brent: accuracy', brent_accuracy), ('linmin', linmin),
         ('powell', lambda: powell(False, False)), ('powell with directions', lambda: powell(True, False)),
         ('powell shuffled', lambda: powell(True, True))]
