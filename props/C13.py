"""C13 highest-density regions: normalisation, enclosed fraction, critical level, interval bounds."""
import z3
from z3 import And, Or, Implies, Not, If
from engine import loader, fext, lemmas
from engine.core import *
from engine.arr import NArr, VList, zint
from engine.lemmas import mksum, EXP, LOG
from props.C12 import seg, spec1, spec2
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'proof'
FILES = ['grid/hpd.py', 'grid/hpdgrid.py', 'grid/_gridquad.f', 'utils/numutils.py']
CLS = {'table': ('inference.grid.hpd', 'HPD%dD'), 'function': ('inference.grid.hpdgrid', 'HPDGrid%dD')}
FUNCTIONS = ['grid._gridquad.xvalues', 'utils.numutils.zbracket'] + \
    ['grid.%s.%s.%s' % (m.split('.')[-1], c % d, f) for m, c in CLS.values() for d in (1, 2) for f in ('__init__', 'fracgt', 'critlevel', '_diff')] + \
    ['grid.%s.%s.norm' % (m.split('.')[-1], c % 1) for m, c in CLS.values()]
EXTS = ['_gridquad']
RUN_S = 8
TASK_S = 100
ASSUMPTIONS = ['real arithmetic for floating point', 'qgt1d and qgt2d by their contract (C12), lin_stepper and log_stepper by theirs (C24)',
               'scipy.optimize.brentq(f, a, b, xtol): ValueError unless f(a) f(b) <= 0; otherwise returns r such that f has opposite signs (or a zero) at r and at some point within xtol + 4 eps |r| of r',
               'scipy.stats.chi2 and norm: unspecified functions (they only give starting values and the probability of a number of standard deviations)',
               'exp is positive and increasing, and the inverse of log']
ERR = (IndexError, TypeError, ValueError, AttributeError, NameError, ZeroDivisionError, KeyError, RuntimeError, AssertionError)


def run(f, *a, **k):
    try:
        return f(*a, **k)
    except ERR as e:
        CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
        raise PathEnd()


# ---------------------------------------------------------------- crossings
X, Y, C = z3.Function('x', I, R), z3.Function('y', I, R), z3.Real('ycrit')
CN, CELL = z3.Function('CN', I, I), z3.Function('CELL', I, I)


def cross(i):
    """the interpolated value exceeds C on one side of cell i only"""
    return (Y(i) > C) != (Y(i + 1) > C)


def point(i):
    return X(i) + (X(i + 1) - X(i)) * (C - Y(i)) / (Y(i + 1) - Y(i))


class Count:
    """ghost state: CN(i) crossings in the first i cells; CELL(j): the cell of the j-th"""

    def __init__(self, room):
        self.room, self.ks = room, []
        CTX.assume(CN(0) == 0)

    def define(self, k):
        # CN is the recursive count, and CELL its inverse at the crossings
        return Implies(k >= 0, And(CN(k + 1) == CN(k) + If(cross(k), 1, 0), CN(k) >= 0, CN(k) <= k, Implies(cross(k), CELL(CN(k)) == k)))

    def invs(self, lid, v):
        CTX.assume(And(self.define(v.k), self.define(v.k - 1)))      # (definitions: true at every index)
        self.ks.append(v.k)
        for nm, s in v.scalars().items():
            if kind(s) == 'i':
                yield 'count ' + nm, toint(s) == CN(v.k)
        yield 'room', CN(v.k) <= self.room

    def content(self, lid, v):
        for nm, a in v.env0.items():
            if isinstance(a, NArr) and a.ndim == 1:
                yield {nm: (lambda k, j: And(0 <= j[0], j[0] < CN(k)), lambda j: point(CELL(j[0])))}


def xvalues():
    def path():
        fext.use('inference.grid._gridquad')
        m = fext.module('q', 'grid/_gridquad.f')
        n, room = SInt(z3.Int('n')), SInt(z3.Int('room'))
        CTX.assume([n >= 2, room >= 1])
        xa, ya = (NArr.fromfn((n,), lambda j, f=f: f(j[0])) for f in (X, Y))
        x0, y0 = xa.store.cur, ya.store.cur
        h = Count(room._z)
        CTX.loop_hints = [h]
        r = run(m.xvalues, xa, ya, SReal(C), room)
        CTX.cover('returned')
        xv, nx, ok = r
        ok = tobool(ok) if not kind(ok) == 'i' else toint(ok) != 0
        p = CTX.fresh('p', I)
        CTX.assume(And(0 <= p, p < n._z - 1))
        for t in (p, n._z - 1, n._z - 2):
            CTX.assume(h.define(t))
        a, b = CTX.fresh('a', I), CTX.fresh('b', I)
        CTX.prove('the count never decreases (induction step)', Implies(And(0 <= a, a <= b, CN(a) <= CN(b), h.define(b)), CN(a) <= CN(b + 1)))
        for t in [k + 1 for k in h.ks[-40:]] + [p + 1, p]:
            CTX.assume(Implies(And(0 <= t, t <= n._z - 1), CN(t) <= CN(n._z - 1)))
        CTX.prove('refused only when there are more crossings than room', Or(ok, CN(n._z - 1) > room._z))
        CTX.prove('number of crossings', Implies(ok, And(toint(nx) == CN(n._z - 1), CN(n._z - 1) <= room._z)))
        CTX.prove('every crossing is listed, in order', Implies(And(ok, cross(p)), xv.store.cur((CN(p),)) == point(p)))
        j = CTX.fresh('j', I)
        CTX.prove('the tables are not modified', And(xa.store.cur((j,)) == x0((j,)), ya.store.cur((j,)) == y0((j,))))
    explore(path)


TASKS = [('xvalues', xvalues)]


# ---------------------------------------------------------------- the classes
def axis(lo, hi, n, log, k):
    """grid point k (the steppers' contract, C24)"""
    n1 = z3.ToReal(n - 1)
    if log:
        return lo * EXP(LOG(hi / lo) / n1 * z3.ToReal(k))
    return lo + z3.ToReal(k) / n1 * (hi - lo)


def stepper(log):
    def f(lo, hi, n):
        lo, hi, n = toreal(lo), toreal(hi), toint(n)
        CTX.assume(And(n >= 2) if not log else And(n >= 2, lo > 0, hi > 0)) if CTX.valid(n >= 2, ms=2000).status == 'discharged' else _no()
        return NArr.fromfn((SInt(n),), lambda j: axis(lo, hi, n, log, j[0]))
    return f


def _no():
    raise Unsupported('steps of an unknown number')


class Quad:
    """qgt1d / qgt2d by contract"""

    def __init__(self, dim):
        self.dim, self.calls = dim, []

    def __call__(self, a, crit, **kw):
        if not isinstance(a, NArr) or a.ndim != self.dim or kw:
            raise Unsupported('argument of the quadrature')
        f, c = a.frozen(), toreal(crit)
        g = lambda *k: f(tuple(k))
        ns = [zint(s) for s in a.shp]
        return SReal(spec1(g, ns[0], c) if self.dim == 1 else spec2(g, ns[0], ns[1], c))


def give(m, name, f):
    if hasattr(m, name):
        setattr(m, name, f)


class H:
    pass


TAB = {1: z3.Function('L', I, R), 2: z3.Function('L', I, I, R)}
FUN = {1: z3.Function('F', R, R), 2: z3.Function('F', R, R, R)}


def make(cls, dim, log, quad=None):
    """an instance for an arbitrary table / density"""
    mn, cn = CLS[cls]
    m = loader.fresh_import(mn)
    h = H()
    h.m = m
    give(m, 'lin_stepper', stepper(False))
    give(m, 'log_stepper', stepper(True))
    h.quad = quad or Quad(dim)
    give(m, 'qgt%dd' % dim, h.quad)
    h.n = [z3.Int('nx'), z3.Int('ny')][:dim]
    h.ends = [(z3.Real(c + 'lo'), z3.Real(c + 'hi')) for c in 'xy'[:dim]]
    for n, (lo, hi), l in zip(h.n, h.ends, log):
        CTX.assume(And(n >= 2, lo < hi, *([lo > 0] if l else [])))
    h.x = [lambda k, a=a: axis(a[1][0], a[1][1], a[0], a[2], k) for a in zip(h.n, h.ends, log)]
    ns = tuple(SInt(n) for n in h.n)
    steps = ['log' if l else 'linear' for l in log]
    e = [SReal(v) for v in h.ends[0]], [SReal(v) for v in h.ends[-1]]
    if cls == 'table':
        h.T = NArr.fromfn(ns, lambda j: TAB[dim](*j))
        h.t0 = h.T.store.cur
        h.L = lambda *k: TAB[dim](*k)
        args = [h.T] + e[0] + (e[1] if dim == 2 else [])
    else:
        h.T = None
        h.L = lambda *k: FUN[dim](*[x(i) for x, i in zip(h.x, k)])

        def f(*x):
            if len(x) != dim:
                raise TypeError('number of arguments')
            return SReal(FUN[dim](*[toreal(v) for v in x]))
        args = [f] + e[0] + [ns[0]] + (e[1] + [ns[1]] if dim == 2 else [])
    h.o = run(getattr(m, cn % dim), *(args + steps))
    return h


def density(h, dim, log, M):
    """scaled density at a grid point, in the stepping variables"""
    def s(*k):
        v = EXP(h.L(*k) - M)
        for x, i, l in zip(h.x, k, log):
            if l:
                v = v * x(i)
        return v
    return s


def init(cls, dim, log):
    def path():
        h = make(cls, dim, log)
        CTX.cover('made')
        o = h.o
        j = tuple(CTX.fresh('j', I) for _ in range(dim))
        inside = And(*[And(0 <= a, a < n) for a, n in zip(j, h.n)])
        M = toreal(o.max)
        CTX.prove('scale: at least every tabulated value', Implies(inside, h.L(*j) <= M))
        s = density(h, dim, log, M)
        if not isinstance(o.spdf, NArr):
            raise Unsupported('spdf')
        CTX.prove('stored density', Implies(inside, o.spdf.store.cur(j) == s(*j)))
        if h.T is not None:
            CTX.prove('the table given is not modified', h.T.store.cur(j) == h.t0(j))
        for a, n in zip(o.spdf.shp, h.n):
            CTX.prove('size of the table', zint(a) == n)
    explore(path)



# ---------------------------------------------------------------- normalisation, fractions, levels
Q = z3.Function('Q', R, R)          # integral of the stored density where it exceeds the argument (C12)


class Opaque(Quad):
    """the quadrature of one and the same table"""

    def __call__(self, a, crit, **kw):
        if not isinstance(a, NArr) or a.ndim != self.dim or kw:
            raise Unsupported('argument of the quadrature')
        j = tuple(z3.Int('q#%d' % i) for i in range(self.dim))
        e = z3.simplify(a.frozen()(j))
        if not self.calls:
            self.calls.append(e)
        elif not e.eq(self.calls[0]):
            raise Unsupported('quadrature of another table')
        return SReal(Q(toreal(crit)))


def cell(h, log):
    v = z3.RealVal(1)
    for n, (lo, hi), l in zip(h.n, h.ends, log):
        v = v * ((LOG(hi / lo) if l else hi - lo) / z3.ToReal(n - 1))
    return v


def positive(h, dim, log):
    # a positive density has a positive integral (C12: a sum of positive cells), and the steps are positive
    for n, (lo, hi), l in zip(h.n, h.ends, log):
        CTX.assume(n - 1 >= 1)
        if l:
            CTX.assume(Implies(hi / lo > 1, LOG(hi / lo) > 0))
            CTX.assume(hi / lo > 1)
    CTX.assume(Q(0) > 0)


def norm(cls, dim, log):
    def path():
        h = make(cls, dim, log, Opaque(dim))
        CTX.cover('made')
        positive(h, dim, log)
        o = h.o
        M = toreal(o.max)
        want = LOG(Q(0) * cell(h, log)) + M
        CTX.prove('log normalisation', toreal(o.lml) == want)
        if dim == 1:
            CTX.prove('norm()', toreal(run(o.norm)) == want)
        j = tuple(CTX.fresh('j', I) for _ in range(dim))
        inside = And(*[And(0 <= a, a < n) for a, n in zip(j, h.n)])
        e = h.quad.calls[0] if h.quad.calls else None
        if e is None:
            raise Unsupported('no quadrature')
        CTX.prove('it is the density that is integrated', Implies(inside, z3.substitute(e, *[(z3.Int('q#%d' % i), v) for i, v in enumerate(j)]) == density(h, dim, log, M)(*j)))
        lr = SReal(z3.Real('lr'))
        CTX.prove('fraction above a level', toreal(run(o.fracgt, lr)) == Q(EXP(lr._z)) / Q(0))
    explore(path)


PPF, CDF = z3.Function('ppf', R, R, R), z3.Function('cdf', R, R, R)


class Stats:
    class chi2:
        ppf = staticmethod(lambda p, nd: SReal(PPF(toreal(p), toreal(nd))))
        cdf = staticmethod(lambda x, nd: SReal(CDF(toreal(x), toreal(nd))))


def critlevel(cls, dim, log, by, tol):
    def path():
        h = make(cls, dim, log, Opaque(dim))
        positive(h, dim, log)
        m, o = h.m, h.o
        for nm in ('zbracket', 'brentq', 'stats') + (('xvalues',) if dim == 1 else ()):
            if not hasattr(m, nm):
                raise Unsupported('no %s' % nm)
        m.stats = Stats
        M = toreal(o.max)
        frac = lambda t: Q(EXP(t)) / Q(0)
        got = H()
        got.r = got.failed = None
        if by == 'p':
            p = z3.Real('p')
            CTX.assume(And(p > 0, p < 1, PPF(p, 1) >= 0))
            kw = {'p': SReal(p)}
        else:
            sg = z3.Real('nsig')
            CTX.assume(And(sg > 0))
            p = CDF(sg * sg, 1)
            CTX.assume(And(p > 0, p < 1))
            kw = {'snsig': SReal(sg)}
        t = z3.RealVal('3/10000')
        if tol:
            t = z3.Real('tol')
            CTX.assume(t > 0)
            kw['tol'] = SReal(t)

        def zbracket(f, x1, x2, *a, **k):
            if a or k:
                raise Unsupported('zbracket arguments')
            CTX.prove('the starting interval is not empty', toreal(x1) != toreal(x2))
            if CTX.choose(2):
                got.failed = True
                raise RuntimeError('Zero bracketing failed!')
            u, v = SReal(CTX.fresh('u', R)), SReal(CTX.fresh('v', R))
            CTX.assume(toreal(f(u)) * toreal(f(v)) < 0)
            return u, v

        def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.881784197001252e-16, **k):
            if args or k:
                raise Unsupported('brentq arguments')
            CTX.prove('brentq gets a sign change', toreal(f(a)) * toreal(f(b)) <= 0)
            CTX.prove('brentq gets a positive tolerance', toreal(xtol) > 0)
            r, v = SReal(CTX.fresh('r', R)), SReal(CTX.fresh('w', R))
            CTX.assume(toreal(f(r)) * toreal(f(v)) <= 0)
            got.r, got.v, got.x = r._z, v._z, toreal(xtol)
            s = CTX.fresh('slack', R)                   # 4 eps |r|
            CTX.assume(And(s >= 0, v._z <= r._z + got.x + s, v._z >= r._z - got.x - s))
            got.slack = s
            return r

        def xvalues(x, y, yc, nmax):
            if not (isinstance(y, NArr) and y.ndim == 1):
                raise Unsupported('xvalues arguments')
            j = CTX.fresh('j', I)
            inside = And(0 <= j, j < h.n[0])
            CTX.assume(inside)
            X = x.store.cur if isinstance(x, NArr) else None
            if X is None:
                X = lambda jj: toreal(x[SInt(jj[0])])
            CTX.prove('bounds are sought on the grid', Implies(inside, X((j,)) == h.x[0](j)))
            CTX.prove('bounds are sought in the log density', Implies(inside, y.store.cur((j,)) == h.L(j) - M + (LOG(h.x[0](j)) if log[0] else 0)))
            CTX.prove('bounds are sought at the level', toreal(yc) == got.r)
            CTX.prove('room for ten bounds', toint(nmax) >= 10)
            got.b, got.nb = NArr.fresh('bounds', (nmax,)), CTX.fresh('nb', I)
            CTX.assume(And(got.nb >= 0, got.nb <= toint(nmax)))
            ok = CTX.choose(2)
            got.refused = not ok
            return got.b, SInt(got.nb), ok
        m.zbracket, m.brentq = zbracket, brentq
        if dim == 1:
            m.xvalues = xvalues
        got.refused = False
        try:
            r = o.critlevel(**kw)
        except RuntimeError:
            CTX.prove('refused only when there is no bracket or there are too many bounds', z3.BoolVal(bool(got.failed or got.refused)))
            CTX.cover('refused')
            return
        except ERR as e:
            CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            return
        CTX.cover('returned')
        if h.T is not None:
            j = tuple(CTX.fresh('jt', I) for _ in range(dim))
            CTX.prove('the table given is not modified', h.T.store.cur(j) == h.t0(j))
        CTX.prove('not silent about a failure', z3.BoolVal(not (got.failed or got.refused)))
        if got.r is None:
            raise Unsupported('no root search')
        lr = toreal(r[0] if dim == 1 else r)
        d = got.slack + t
        lo, hi = lr - d, lr + d
        pts = [lo, hi, got.r, got.v]
        mono = [Implies(a <= b, And(EXP(a) <= EXP(b), Q(EXP(a)) >= Q(EXP(b)))) for a in pts for b in pts if a is not b] + [EXP(a) > 0 for a in pts]
        CTX.prove('tolerance', got.x <= t)
        CTX.prove('returned level', lr == got.r)
        CTX.prove('the level brackets the probability from above', Q(EXP(lo)) >= p * Q(0), hyps=mono)
        CTX.prove('the level brackets the probability from below', Q(EXP(hi)) <= p * Q(0), hyps=mono)
        for nm, v in (('probs', p), ('deltas', lr), ('levels', M + lr)):
            l = getattr(o, nm)
            if len(l) != 1:
                CTX.prove('one record in ' + nm, z3.BoolVal(False))
                return
            CTX.prove('recorded in ' + nm, toreal(l[-1]) == v)
        if dim == 1:
            b = r[1]
            if not isinstance(b, NArr):
                raise Unsupported('bounds')
            j = CTX.fresh('jb', I)
            CTX.prove('number of bounds', zint(b.shp[0]) == got.nb)
            CTX.assume(And(0 <= j, j < got.nb))
            CTX.prove('bounds', toreal(b[SInt(j)]) == got.b.store.cur((j,)))
            CTX.prove('bounds recorded', z3.BoolVal(len(o.bounds) == 1 and o.bounds[0] is b))
    explore(path)


def both(cls, dim):
    def path():
        h = make(cls, dim, (0, 0)[:dim], Opaque(dim))
        h.m.stats = Stats
        p, s = SReal(z3.Real('p')), SReal(z3.Real('nsig'))
        CTX.assume([p > 0, s > 0])
        try:
            h.o.critlevel(p, s)
        except ValueError:
            CTX.cover('refused')
            return
        except ERR:
            pass
        CTX.prove('p and snsig together are refused', z3.BoolVal(False))
    explore(path)


F1 = z3.Function('f1', R, R)


def bracket(vals, flag):
    def path():
        m = loader.fresh_import('inference.utils.numutils')
        a, b = z3.Real('x1'), z3.Real('x2')
        extra = SReal(z3.Real('extra'))

        def f(x, *r):
            if len(r) != (1 if flag else 0) or (flag and r[0] is not extra):
                raise TypeError('arguments of the function')
            return SReal(F1(toreal(x)))
        kw = {'maxtries': SInt(z3.Int('maxtries'))}
        if vals:
            kw['vals'] = (SReal(F1(a)), SReal(F1(b)))
        if flag:
            kw['args'] = (extra,)
        CTX.loop_hints = [Ends()]
        try:
            u, v = m.zbracket(f, SReal(a), SReal(b), **kw)
        except ValueError:
            CTX.prove('refused only for an empty interval', a == b)
            return
        except RuntimeError:
            CTX.cover('no bracket')
            return
        except ERR as e:
            CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            return
        CTX.cover('returned')
        u, v = toreal(u), toreal(v)
        CTX.prove('the function changes sign over the interval', F1(u) * F1(v) < 0)
        CTX.prove('the interval contains the one given', And(If(u < v, u, v) <= If(a < b, a, b), If(u < v, v, u) >= If(a < b, b, a)))
    explore(path)


class Ends:
    """any two number variables may be an end and the function there"""

    def invs(self, lid, v):
        s = [(nm, x) for nm, x in v.scalars().items() if kind(x) == 'r']
        a, b = z3.Real('x1'), z3.Real('x2')
        for n1, x in s:
            for n2, y in s:
                if n1 != n2:
                    yield 'value %s %s' % (n1, n2), toreal(y) == F1(toreal(x))
                    yield 'order %s %s' % (n1, n2), Implies(a < b, And(toreal(x) <= a, toreal(y) >= b))
                    yield 'redro %s %s' % (n1, n2), Implies(a > b, And(toreal(x) >= a, toreal(y) <= b))
        yield 'apart', a != b


def kinds(d):
    return ((0,), (1,)) if d == 1 else ((0, 0), (0, 1), (1, 0), (1, 1))


TASKS += [('norm %s %dd %s' % (c, d, l), lambda c=c, d=d, l=l: norm(c, d, l)) for c in CLS for d in (1, 2) for l in kinds(d)]
TASKS += [('critlevel %s %dd %s %s%s' % (c, d, l, b, ' tol' if t else ''), lambda c=c, d=d, l=l, b=b, t=t: critlevel(c, d, l, b, t)) for c in CLS for d in (1, 2)
          for l in kinds(d)[:1 + (d == 1)] for b in ('p', 'snsig') for t in (0, 1)]
TASKS += [('p and snsig %s %dd' % (c, d), lambda c=c, d=d: both(c, d)) for c in CLS for d in (1, 2)]
TASKS += [('zbracket%s%s' % (' vals' * v, ' args' * a), lambda v=v, a=a: bracket(v, a)) for v in (0, 1) for a in (0, 1)]
TASKS += [('init %s %dd %s' % (c, d, l), lambda c=c, d=d, l=l: init(c, d, l)) for c in CLS for d in (1, 2)
          for l in (((0,), (1,)) if d == 1 else ((0, 0), (0, 1), (1, 0), (1, 1)))]
