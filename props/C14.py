"""C14 refined interval lists: an ordered tiling of the range, refined only
where asked."""
import z3
from z3 import And, Or, Implies, Not
from engine import loader
from engine.core import *
from engine.arr import NArr, VList, zint
from engine.lemmas import mksum, EXP, LOG
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'bounded'
FILES = ['grid/grid1d.py']
FUNCTIONS = ['grid.grid1d.BasicInterval.' + f for f in ('__init__', 'locate', 'resample')] + \
    ['grid.grid1d.RefinedIntervalList1D.' + f for f in ('__init__', '_del', '_insert', '_stepSize', '_numPts', 'update', 'merge', 'nonbase', 'locate', 'nlocate', '__getitem__')]
EXTS = ['_gridquad']
ASSUMPTIONS = ['real arithmetic for floats (equality of neighbouring bounds up to rounding); log/exp/floor/ceil by their real-analysis axioms',
               'update and merge are verified against the contracts of _stepSize, _numPts, BasicInterval and BasicInterval.locate, which are verified against their bodies']
BOUNDED = ['update: lists of 1, 2 and 3 intervals before the update (any bounds, numbers of points and arguments); merge: lists of 1 to 4 intervals']
RUN_S = 6
TASK_S = 100
ERR = (IndexError, TypeError, ValueError, AttributeError, NameError, ZeroDivisionError, KeyError, RuntimeError)


def run(name, f, *a, **k):
    try:
        return f(*a, **k)
    except ERR as e:
        CTX.prove('%s does not fail (%s)' % (name, type(e).__name__), z3.BoolVal(False))
        raise PathEnd()


# --------------------------------------------------------- a single interval
KINDS = ('lin', 'log', 'neglog')


def bounds(kind, a='lo', b='hi'):
    lo, hi = SReal(z3.Real(a)), SReal(z3.Real(b))
    CTX.assume(lo < hi)
    if kind == 'log':
        CTX.assume(lo > 0)
    if kind == 'neglog':
        CTX.assume(hi < 0)
    return lo, hi


def length(kind, lo, hi):
    return hi._z - lo._z if kind == 'lin' else LOG(hi._z / lo._z)


def st(kind):
    return 'linear' if kind == 'lin' else 'log'


def loglen_sign(kind, L, lo, hi):
    """lemma: the log length is positive for positive bounds, negative for negative ones"""
    if kind == 'log':
        CTX.prove('bounds in order', hi._z / lo._z > 1)
        return [L > 0]
    if kind == 'neglog':
        CTX.prove('bounds in order', And(hi._z / lo._z < 1, hi._z / lo._z > 0))
        return [L < 0]
    return [L > 0]


def interval(kind):
    """constructor and resample: the steps add up to the (log) length"""
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        lo, hi = bounds(kind)
        n, n2 = SInt(z3.Int('n')), SInt(z3.Int('n2'))
        CTX.assume([n >= 2, n2 >= 2])
        v = run('constructor', m.BasicInterval, lo, hi, n, st(kind))
        CTX.cover('made')

        def state(n):
            CTX.prove('bounds and number of points', And(toreal(v.lo) == lo._z, toreal(v.hi) == hi._z, toint(v.n) == n._z))
            CTX.prove('the step is the (log) length over the number of steps', toreal(v.step) == length(kind, lo, hi) / z3.ToReal(n._z - 1))
            CTX.prove('kind of spacing', z3.BoolVal(bool(v.isLin) == (kind == 'lin')))
            if kind != 'lin':
                CTX.prove('factor between points', toreal(v.fac) == EXP(toreal(v.step)))
        state(n)
        run('resample', v.resample, n2)
        state(n2)
    explore(path)


def refused():
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        lo, hi = SReal(z3.Real('lo')), SReal(z3.Real('hi'))
        n = SInt(z3.Int('n'))
        for kind in ('linear', 'log'):
            for c in (m.BasicInterval, m.RefinedIntervalList1D):
                try:
                    c(lo, hi, n, kind)
                except ValueError:
                    CTX.cover('refused')
                    bad = [n._z <= 1]
                    if kind == 'log':
                        bad.append(lo._z * hi._z <= 0)
                    if c is m.RefinedIntervalList1D:
                        bad.append(lo._z == hi._z)
                    CTX.prove('only impossible intervals are refused', Or(*bad))
                    raise PathEnd()
                except ERR as e:
                    CTX.prove('constructor does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
                    raise PathEnd()
                if kind == 'log':
                    CTX.prove('a log interval has bounds of one sign', lo._z * hi._z > 0)
                CTX.prove('at least two points', n._z >= 2)
                CTX.assume(lo != hi)
    explore(path)


def locate(kind):
    """locate: the grid points around x"""
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        lo, hi = bounds(kind)
        n, x = SInt(z3.Int('n')), SReal(z3.Real('x'))
        CTX.assume([n >= 2, x >= lo, x <= hi])
        v = run('constructor', m.BasicInterval, lo, hi, n, st(kind))
        s = CTX.fresh('step', R)
        L = length(kind, lo, hi)
        X = x._z - lo._z if kind == 'lin' else LOG(x._z / lo._z)
        N1 = z3.ToReal(n._z - 1)
        hy = loglen_sign(kind, L, lo, hi)
        CTX.prove('sign of the length', hy[0])
        CTX.prove('step', toreal(v.step) == L / N1)
        CTX.assume(And(s * N1 == L, s == toreal(v.step), (s > 0) == (L > 0), s != 0))
        v.step = SReal(s)
        if kind != 'lin':
            v.fac = SReal(EXP(s))
            CTX.prove('x over lo', x._z / lo._z > 0)
            # lemma: log is increasing; q = x/lo lies between 1 and hi/lo
            CTX.prove('x/lo in range', And(x._z / lo._z >= 1, x._z / lo._z <= hi._z / lo._z) if kind == 'log' else And(x._z / lo._z <= 1, x._z / lo._z >= hi._z / lo._z))
            CTX.prove('log length of x in range', And(X >= 0, X <= L) if kind == 'log' else And(X <= 0, X >= L))
        q = X / s
        CTX.prove('steps to x', And(q >= 0, q <= N1, q * s == X))
        i, l, h = run('locate', v.locate, x)
        CTX.cover('located')
        i, l, h = toint(i), toreal(l), toreal(h)
        CTX.prove('index in range', And(0 <= i, i <= n._z - 1))
        CTX.prove('index of the last point not beyond x', And(z3.ToReal(i) <= q, q < z3.ToReal(i) + 1))
        P = lambda k: lo._z + k * s if kind == 'lin' else lo._z * EXP(k * s)
        ri = z3.ToReal(i)
        CTX.prove('lower neighbour is grid point i', l == P(ri))
        if kind == 'lin':
            CTX.prove('upper neighbour is the next point', Implies(i < n._z - 1, h == P(ri + 1)))
        else:
            CTX.prove('upper neighbour is the next point', Implies(i < n._z - 1, h == P(ri + 1)), hyps=[EXP(ri * s + s) == EXP(ri * s) * EXP(s), (ri + 1) * s == ri * s + s])
        CTX.prove('at the upper end both are the end', Implies(i == n._z - 1, h == l))
    explore(path)


def order(kind):
    """lemma for locate: grid points are ordered, so the neighbours enclose x"""
    def path():
        lo, hi = bounds(kind)
        n, x = SInt(z3.Int('n')), SReal(z3.Real('x'))
        s, i = CTX.fresh('step', R), CTX.fresh('i', I)
        L = length(kind, lo, hi)
        hy = loglen_sign(kind, L, lo, hi)
        CTX.prove('sign of the length', hy[0])
        CTX.assume([n >= 2, x >= lo, x <= hi])
        X = x._z - lo._z if kind == 'lin' else LOG(x._z / lo._z)
        N1, ri = z3.ToReal(n._z - 1), z3.ToReal(i)
        CTX.assume(And(0 <= i, i <= n._z - 1, s * N1 == L, (s > 0) == (L > 0), s != 0))
        q = CTX.fresh('q', R)
        CTX.assume(And(q * s == X, ri <= q, q < ri + 1, q <= N1))
        CTX.cover('located')
        if kind == 'lin':
            P = lambda k: lo._z + k * s
            CTX.prove('enclosed', And(P(ri) <= x._z, Implies(i < n._z - 1, x._z < P(ri + 1)), P(N1) == hi._z, Implies(i < n._z - 1, P(ri + 1) <= hi._z),
                                      Implies(i == n._z - 1, And(P(ri) == hi._z, x._z == hi._z))))
            return
        P = lambda k: lo._z * EXP(k * s)
        CTX.prove('x over lo', x._z / lo._z > 0)
        CTX.prove('end', P(N1) == hi._z, hyps=[EXP(s * N1) == EXP(N1 * s)])
        CTX.prove('x', lo._z * EXP(X) == x._z)
        # exponents in order (linear in the products)
        up = kind == 'log'
        le = (lambda a, b: a <= b) if up else (lambda a, b: a >= b)
        CTX.prove('exponents', And(le(ri * s, X), Implies(i < n._z - 1, And((X < (ri + 1) * s) if up else (X > (ri + 1) * s), le((ri + 1) * s, N1 * s))),
                                   Implies(i == n._z - 1, X == N1 * s)))
        mono = lambda a, b: And(Implies(a < b, EXP(a) < EXP(b)), Implies(a == b, EXP(a) == EXP(b)), Implies(a > b, EXP(a) > EXP(b)))
        hs = [mono(ri * s, X), mono(X, (ri + 1) * s), mono((ri + 1) * s, N1 * s), mono(ri * s, N1 * s), mono(X, N1 * s)]
        CTX.prove('enclosed below', P(ri) <= x._z, hyps=hs)
        CTX.prove('enclosed above', Implies(i < n._z - 1, x._z < P(ri + 1)), hyps=hs)
        CTX.prove('within', Implies(i < n._z - 1, P(ri + 1) <= hi._z), hyps=hs)
        CTX.prove('at the end', Implies(i == n._z - 1, And(P(ri) == hi._z, x._z == hi._z)), hyps=hs + [Implies(i == n._z - 1, ri == N1)])
    explore(path)


def numpts(kind):
    """_numPts: enough points for the spacing asked; exactly the number of steps when they fit"""
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        cls = m.RefinedIntervalList1D
        if not (hasattr(cls, '_numPts') and hasattr(cls, '_stepSize')):
            raise Unsupported('helpers')
        lo, hi = bounds(kind)
        o = cls.__new__(cls)
        o.isLin = int(kind == 'lin')
        o.stype = st(kind)
        L = length(kind, lo, hi)
        hy = loglen_sign(kind, L, lo, hi)
        CTX.prove('sign of the length', hy[0])
        n = SInt(z3.Int('n'))
        CTX.assume(n >= 2)
        CTX.prove('_stepSize', toreal(run('_stepSize', o._stepSize, lo, hi, n)) == L / z3.ToReal(n._z - 1))
        s = CTX.fresh('step', R)
        CTX.assume(And(s != 0, (s > 0) == (L > 0)))
        mm = toint(run('_numPts', o._numPts, lo, hi, SReal(s)))
        CTX.cover('counted')
        q = L / s
        CTX.prove('a positive number of steps', q > 0)
        CTX.prove('at least two points', mm >= 2)
        M1 = z3.ToReal(mm - 1)
        CTX.prove('enough steps', M1 >= q)
        CTX.prove('no more than needed', M1 - 1 < q)
        ab = lambda t: z3.If(t >= 0, t, -t)
        CTX.prove('the spacing is not coarser than asked', ab(L / M1) <= ab(s), hyps=[L == q * s, L / M1 * M1 == L, M1 > 0])
        j = CTX.fresh('j', I)
        CTX.assume(L == z3.ToReal(j) * s)
        CTX.prove('whole steps', q == z3.ToReal(j))
        CTX.prove('as many points as whole steps', mm == j + 1)
        CTX.prove('whole steps keep the spacing', L / M1 == s, hyps=[M1 == q])
    explore(path)


def remnants(kind):
    """lemmas: cutting at a grid point leaves whole steps on both sides; joining
    intervals of one spacing keeps it"""
    def path():
        a, b = bounds(kind)
        n, i = SInt(z3.Int('n')), SInt(z3.Int('i'))
        CTX.assume([n >= 2, i > 0, i < n - 1])
        s = CTX.fresh('step', R)
        N1, ri = z3.ToReal(n._z - 1), z3.ToReal(i._z)
        L = length(kind, a, b)
        CTX.assume(And(L == s * N1, s != 0))
        if kind == 'lin':
            p = SReal(a._z + ri * s)
            CTX.cover('cut')
            CTX.prove('whole steps to the cut', length(kind, a, p) == ri * s)
            CTX.prove('whole steps from the cut', length(kind, p, b) == (N1 - ri) * s)
        else:
            p = SReal(CTX.fresh('p', R))
            CTX.assume(p._z == a._z * EXP(ri * s))
            CTX.cover('cut')
            CTX.prove('x over lo', p._z / a._z == EXP(ri * s))
            CTX.prove('whole steps to the cut', LOG(p._z / a._z) == ri * s)
            CTX.prove('ratio', b._z / a._z > 0)
            CTX.prove('from the cut', b._z / p._z == (b._z / a._z) / (p._z / a._z))
            CTX.prove('whole steps from the cut', LOG(b._z / p._z) == (N1 - ri) * s, hyps=[LOG((b._z / a._z) / (p._z / a._z)) == LOG(b._z / a._z) - LOG(p._z / a._z)])
        # joining
        n1, n2 = CTX.fresh('n1', I), CTX.fresh('n2', I)
        L1, L2 = CTX.fresh('L1', R), CTX.fresh('L2', R)
        CTX.assume(And(n1 >= 2, n2 >= 2))
        r1, r2 = z3.ToReal(n1 - 1), z3.ToReal(n2 - 1)
        CTX.prove('joined', Implies(And(L1 == s * r1, L2 == s * r2), (L1 + L2) / (r1 + r2) == s))
        if kind != 'lin':
            c = SReal(CTX.fresh('c', R))
            CTX.assume(b._z < c._z)
            if kind == 'neglog':
                CTX.assume(c._z < 0)
            CTX.prove('ratios', And(c._z / b._z > 0, b._z / a._z > 0, c._z / a._z == (c._z / b._z) * (b._z / a._z)))
            CTX.prove('log lengths add', LOG(c._z / a._z) == LOG(c._z / b._z) + LOG(b._z / a._z), hyps=[LOG((c._z / b._z) * (b._z / a._z)) == LOG(c._z / b._z) + LOG(b._z / a._z)])
    explore(path)


TASKS = [('%s %s' % (n, k), lambda f=f, k=k: f(k)) for n, f in (('interval', interval), ('locate', locate), ('order', order), ('numpts', numpts), ('remnants', remnants)) for k in KINDS]
TASKS.append(('refused', refused))

# ------------------------------------------------------------ lists of intervals
STEP = z3.Function('STEP', R, R, I, R)        # the spacing of n points from lo to hi (contract of the constructor)


class SI:
    """contract of BasicInterval (tasks interval, locate, numpts, remnants)"""
    live = []
    neg = False
    joins = False

    def __init__(self, lo, hi, n, stype='linear'):
        CTX.prove('the parts of a list have its kind of spacing', z3.BoolVal(stype == SI.want))
        CTX.prove('an interval has its bounds in order and two points', And(toreal(lo) < toreal(hi), toint(n) >= 2))
        self.lo, self.hi, self.n = lo, hi, n
        self._set()
        # joining intervals of one spacing keeps it
        for u in SI.live if SI.joins else ():
            for v in SI.live:
                if u is not v:
                    CTX.assume(Implies(And(toreal(u.hi) == toreal(v.lo), toreal(lo) == toreal(u.lo), toreal(hi) == toreal(v.hi), toint(n) == toint(u.n) + toint(v.n) - 1,
                                           toreal(u.step) == toreal(v.step)), toreal(self.step) == toreal(u.step)))
        SI.live.append(self)

    def _set(self):
        self.step = stepof(self.lo, self.hi, self.n)

    def resample(self, n):
        CTX.prove('an interval has two points', toint(n) >= 2)
        self.n = n
        self._set()

    def locate(self, x):
        x = toreal(x)
        CTX.prove('only points of the interval are located', And(toreal(self.lo) <= x, x <= toreal(self.hi)))
        i, l, h = CTX.fresh('i', I), CTX.fresh('l', R), CTX.fresh('h', R)
        lo, hi, n = toreal(self.lo), toreal(self.hi), toint(self.n)
        CTX.assume(And(0 <= i, i <= n - 1, lo <= l, l <= x, Implies(i < n - 1, And(x < h, h <= hi)), Implies(i == n - 1, And(l == hi, h == hi)),
                       (l == lo) == (i == 0), (h == hi) == (i >= n - 2)))
        # task remnants: the points below and above a grid point keep the spacing
        s = toreal(self.step)
        for q, c in ((l, i), (h, z3.If(i == n - 1, i, i + 1))):
            CTX.assume(And(Implies(c > 0, STEP(lo, q, c + 1) == s), Implies(c < n - 1, STEP(q, hi, n - c) == s)))
        SI.cuts += [(lo, l, hi, toreal(self.step)), (lo, h, hi, toreal(self.step))]
        return SInt(i), SReal(l), SReal(h)


def stepof(lo, hi, n):
    lo, hi, n = toreal(lo), toreal(hi), toint(n)
    s = STEP(lo, hi, n)
    CTX.assume(Implies(And(lo < hi, n >= 2), s < 0 if SI.neg else s > 0))
    return SReal(s)


def ab(t):
    return -t if SI.neg else t


def make(kind, k, interval_list=True):
    """an arbitrary valid list of k intervals"""
    m = loader.fresh_import('inference.grid.grid1d')
    cls = m.RefinedIntervalList1D
    if not all(hasattr(cls, f) for f in ('_numPts', '_stepSize', 'merge', 'update')) or not all(hasattr(m.BasicInterval, f) for f in ('locate', 'resample')):
        raise Unsupported('helpers')
    SI.live, SI.cuts, SI.neg, SI.want = [], [], kind == 'neglog', st(kind)
    m.BasicInterval = SI
    cls._stepSize = lambda self, lo, hi, n: stepof(lo, hi, n)

    def numpts(self, lo, hi, step):
        lo, hi, step = toreal(lo), toreal(hi), toreal(step)
        CTX.prove('points are counted over an interval with bounds in order', And(lo < hi, ab(step) > 0))
        r = CTX.fresh('m', I)
        s = toreal(stepof(SReal(lo), SReal(hi), SInt(r)))
        CTX.assume(And(r >= 2, ab(s) <= ab(step)))
        for a, p, b, t in SI.cuts:
            CTX.assume(And(Implies(And(lo == a, hi == p, step == t), s == t), Implies(And(lo == p, hi == b, step == t), s == t)))
        return SInt(r)
    cls._numPts = numpts
    bs = [SReal(z3.Real('b%d' % i)) for i in range(k + 1)]
    CTX.assume([x < y for x, y in zip(bs, bs[1:])])
    if kind == 'log':
        CTX.assume(bs[0] > 0)
    if kind == 'neglog':
        CTX.assume(bs[-1] < 0)
    n0 = SInt(z3.Int('n0'))
    CTX.assume(n0 >= 2)
    o = cls(bs[0], bs[-1], n0, st(kind))
    CTX.prove('a new list is the base interval', And(z3.BoolVal(len(o.ilist) == 1), toreal(o.ilist[0].lo) == bs[0]._z, toreal(o.ilist[0].hi) == bs[-1]._z, toint(o.ilist[0].n) == n0._z,
                                                     toint(o.npts) == n0._z, toint(o.nint) == 1))
    CTX.prove('a new list counts its points', And(z3.BoolVal(len(o.cumpts) == 1), toint(o.cumpts[0]) == n0._z))
    base = o.base
    if k > 1:
        ns = [SInt(z3.Int('n%d' % (i + 1))) for i in range(k)]
        CTX.assume([n >= 2 for n in ns])
        parts = [SI(x, y, n, st(kind)) for x, y, n in zip(bs, bs[1:], ns)]
        for p in parts:
            CTX.assume(ab(toreal(p.step)) <= ab(toreal(base.step)))
        o.ilist = VList(parts) if not isinstance(o.ilist, list) else list(parts)
        o.nint = k
        for p, q in zip(parts, parts[1:]):
            CTX.assume(toreal(p.step) != toreal(q.step))
        c = SInt(z3.IntVal(0))
        o.cumpts = []
        for p in parts:
            c = c + p.n - 1
            o.cumpts.append(c)
        o.cumpts[-1] = c + 1
        o.npts = c + 1
    old = [(toreal(p.lo), toreal(p.hi), toint(p.n), toreal(p.step)) for p in o.ilist]
    return m, o, bs, base, old


def tiling(o, bs):
    L = list(o.ilist)
    CTX.prove('the number of intervals is kept', toint(o.nint) == len(L))
    CTX.prove('the list covers the range', And(toreal(L[0].lo) == bs[0]._z, toreal(L[-1].hi) == bs[-1]._z))
    CTX.prove('contiguous', And(True, *[toreal(p.hi) == toreal(q.lo) for p, q in zip(L, L[1:])]))
    CTX.prove('in increasing order', And(*[And(toreal(p.lo) < toreal(p.hi), toint(p.n) >= 2) for p in L]))
    CTX.prove('the spacing is that of its points', And(*[toreal(p.step) == STEP(toreal(p.lo), toreal(p.hi), toint(p.n)) for p in L]))
    return L


def counts(o, L):
    c, cs = z3.IntVal(0), []
    for p in L:
        c = c + toint(p.n) - 1
        cs.append(c)
    cs[-1] = c + 1
    CTX.prove('points are counted once', toint(o.npts) == c + 1)
    CTX.prove('one cumulative count per interval', z3.BoolVal(len(o.cumpts) == len(L)))
    for i, t in enumerate(cs[:len(o.cumpts)]):
        CTX.prove('cumulative counts', toint(o.cumpts[i]) == t)


def bounds_kept(o, bs, base, b0):
    CTX.prove('the base interval is kept', And(z3.BoolVal(o.base is base), toreal(o.lo) == bs[0]._z, toreal(o.hi) == bs[-1]._z,
                                              *[x == y for x, y in zip((toreal(base.lo), toreal(base.hi), toint(base.n), toreal(base.step)), b0)]))


def merge(kind, k):
    def path():
        m, o, bs, base, old = make(kind, 1)
        b0 = (toreal(base.lo), toreal(base.hi), toint(base.n), toreal(base.step))
        SI.joins = True
        cut = [SReal(z3.Real('c%d' % i)) for i in range(k - 1)]
        bb = [bs[0]] + cut + [bs[-1]]
        CTX.assume([x < y for x, y in zip(bb, bb[1:])])
        ns = [SInt(z3.Int('m%d' % (i + 1))) for i in range(k)]
        CTX.assume([n >= 2 for n in ns])
        parts = [SI(x, y, n, st(kind)) for x, y, n in zip(bb, bb[1:], ns)]
        o.ilist = parts
        o.nint = k
        old = [(toreal(p.lo), toreal(p.hi), toint(p.n), toreal(p.step)) for p in parts]
        CTX.unroll = 2 * k + 2
        run('merge', o.merge)
        CTX.cover('merged')
        L = tiling(o, bs)
        counts(o, L)
        bounds_kept(o, bs, base, b0)
        CTX.prove('neighbours differ in spacing', And(True, *[toreal(p.step) != toreal(q.step) for p, q in zip(L, L[1:])]))
        t = CTX.fresh('t', R)
        for lo, hi, n, s in old:
            for p in L:
                CTX.prove('the spacing is the same everywhere', Implies(And(lo < t, t < hi, toreal(p.lo) < t, t < toreal(p.hi)), toreal(p.step) == s))
    explore(path)


def update(kind, k, rev, case=None):
    def path():
        m, o, bs, base, old = make(kind, k)
        cls = m.RefinedIntervalList1D
        b0 = (toreal(base.lo), toreal(base.hi), toint(base.n), toreal(base.step))
        merged = []

        def stub(self):          # contract of merge: as is, but for what task merge proves
            merged.append(1)
        cls.merge = stub
        if rev:
            o.isPos = 0
        a, b = SReal(z3.Real('ulo')), SReal(z3.Real('uhi'))
        n = SInt(z3.Int('un'))
        CTX.assume([n >= 2, a < b])
        if case:             # which intervals hold the (clipped) bounds
            i, j = case
            CTX.assume(And(True, *([a._z >= bs[i]._z] if i else []) + ([a._z < bs[i + 1]._z] if i < k - 1 else [])))
            CTX.assume(And(True, *([b._z > bs[j]._z] if j else []) + ([b._z <= bs[j + 1]._z] if j < k - 1 else [])))
        try:
            o.update(b, a, n) if rev else o.update(a, b, n)
        except ValueError:
            CTX.cover('refused')
            CTX.prove('only a range off the base interval is refused', Or(b._z <= bs[0]._z, a._z >= bs[-1]._z))
            CTX.prove('refused without effect', And(z3.BoolVal(len(o.ilist) == len(old)), *[And(toreal(p.lo) == q[0], toreal(p.hi) == q[1], toint(p.n) == q[2], toreal(p.step) == q[3]) for p, q in zip(o.ilist, old)]))
            return
        except ERR as e:
            CTX.prove('update does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            return
        CTX.cover('updated')
        CTX.prove('a range off the base interval is refused', And(b._z > bs[0]._z, a._z < bs[-1]._z))
        L = tiling(o, bs)
        bounds_kept(o, bs, base, b0)
        if not merged:
            CTX.prove('no update leaves counts wrong', And(z3.BoolVal(len(L) == len(old)), *[And(toreal(p.lo) == q[0], toreal(p.hi) == q[1], toint(p.n) == q[2]) for p, q in zip(L, old)]))
            counts(o, L)
        # spacing before and after, at any point
        t = CTX.fresh('t', R)
        mx = lambda x, y: z3.If(x >= y, x, y)
        mn = lambda x, y: z3.If(x <= y, x, y)
        ca, cb = mx(a._z, bs[0]._z), mn(b._z, bs[-1]._z)     # the part asked for
        ask = ab(STEP(ca, cb, n._z))
        CTX.assume(ask > 0)
        if len(SI.cuts) < 4:
            raise Unsupported('no points located')
        # grid points of the interval next to the part asked for
        l2, h2 = SI.cuts[0][1], z3.If(cb == SI.cuts[2][1], cb, SI.cuts[3][1])
        slo = SI.cuts[0][3]
        CTX.prove('never coarser than the base', And(*[ab(toreal(p.step)) <= ab(toreal(base.step)) for p in L]))
        g1, g2, g3 = [], [], []
        for lo, hi, _, s in old:
            for p in L:
                both = And(lo < t, t < hi, toreal(p.lo) < t, t < toreal(p.hi))
                g1.append(Implies(both, ab(toreal(p.step)) <= ab(s)))
                g2.append(Implies(And(both, Or(t < l2, t > h2)), toreal(p.step) == s))
                g3.append(Implies(And(both, ca < t, t < cb), Or(ab(toreal(p.step)) <= ask, And(5 * ask <= ab(slo), ab(toreal(p.step)) <= ab(STEP(l2, h2, n._z))))))
        CTX.prove('never coarser than before', And(*g1))
        CTX.prove('unchanged outside the part asked for', And(*g2))
        CTX.prove('as fine as asked', And(*g3))
    explore(path)


TASKS += [('merge %s %d' % (kd, k), lambda kd=kd, k=k: merge(kd, k)) for kd in KINDS for k in (1, 2, 3, 4)]
TASKS += [('update %s %d%s' % (kd, k, ' reversed' if r else ''), lambda kd=kd, k=k, r=r: update(kd, k, r)) for kd in KINDS for k in (1, 2) for r in ((0, 1) if k == 1 else (0,))]
TASKS += [('update lin 3 from %d to %d' % c, lambda c=c: update('lin', 3, 0, c)) for c in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))]


# ------------------------------------------------- finding intervals and points
LO, HI, NP = z3.Function('LO', I, R), z3.Function('HI', I, R), z3.Function('NP', I, I)


class Ref:
    def __init__(self, z):
        self._id = z

    lo = property(lambda s: SReal(LO(s._id)))
    hi = property(lambda s: SReal(HI(s._id)))
    n = property(lambda s: SInt(NP(s._id)))


def toz(v):
    if not isinstance(v, Ref):
        raise TypeError('not an interval')
    return v._id


class Refs(VList):
    custom = True


def anylist(m):
    """any valid list, of any length: intervals numbered 0..k-1, contiguous and in order"""
    k = CTX.fresh('k', I)
    o = m.RefinedIntervalList1D.__new__(m.RefinedIntervalList1D)
    o.ilist = Refs()._sym(SInt(k), lambda j: j, 'i', Ref, toz)
    o.nint = SInt(k)
    o.isPos, o.isLin, o.stype = 1, 1, 'linear'
    o.lo, o.hi = SReal(LO(z3.IntVal(0))), SReal(HI(k - 1))
    j = z3.Int('jq')
    CTX.assume(And(k >= 1, z3.ForAll([j], Implies(And(0 <= j, j < k), And(LO(j) < HI(j), NP(j) >= 2)), patterns=[LO(j), HI(j), NP(j)]),
                   z3.ForAll([j], Implies(And(0 <= j, j < k - 1), HI(j) == LO(j + 1)), patterns=[HI(j)])))
    cum = z3.Function('CUM', I, I)          # CUM(j): points before interval j (right ends not counted)
    npts = CTX.fresh('npts', I)
    CTX.assume(And(cum(0) == 0, npts == cum(k) + 1, z3.ForAll([j], Implies(And(0 <= j, j < k), cum(j + 1) == cum(j) + NP(j) - 1), patterns=[cum(j + 1)])))
    i = z3.Int('iq')
    CTX.prove('counts grow (step of the induction)', z3.ForAll([j], Implies(And(0 <= j, j < k), cum(j + 1) > cum(j))))
    CTX.assume(z3.ForAll([i, j], Implies(And(0 <= i, i <= j, j <= k), cum(i) <= cum(j)), patterns=[z3.MultiPattern(cum(i), cum(j))]))
    o.npts = SInt(npts)
    o.cumpts = VList()._sym(SInt(k), lambda t: z3.If(t == k - 1, npts, cum(t + 1)), 'i')
    return o, k, cum, npts


def find(path2):
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        o, k, cum, npts = anylist(m)
        path2(o, k, cum, npts)
    return lambda: explore(path)


def find_x(o, k, cum, npts):
    x = SReal(z3.Real('x'))

    class H:
        def invs(self, lid, v):
            s = {a: toint(t) for a, t in v.scalars().items() if kind(t) == 'i'}
            for a in s:
                yield 'range ' + a, And(0 <= s[a], s[a] <= k)
                yield 'index ' + a, And(0 <= s[a], s[a] < k)
                yield 'above ' + a, Implies(s[a] < k, LO(s[a]) <= x._z)
                yield 'below ' + a, And(s[a] >= 1, x._z < HI(s[a] - 1))
                for b in s:
                    if a != b:
                        yield 'order %s %s' % (a, b), s[a] < s[b]
                        yield 'ordereq %s %s' % (a, b), s[a] <= s[b]
                        for c in s:
                            if c not in (a, b) and a < b:
                                yield 'mid %s %s %s' % (a, b, c), And(2 * s[c] <= s[a] + s[b], s[a] + s[b] <= 2 * s[c] + 1)
    CTX.loop_hints = [H()]
    try:
        r = o.locate(x)
    except ValueError:
        CTX.cover('refused')
        CTX.prove('only points out of range are refused', Or(x._z < LO(0), x._z > HI(k - 1)))
        return
    except ERR as e:
        CTX.prove('locate does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
        return
    CTX.cover('located')
    if not isinstance(r, Ref):
        raise Unsupported('result of locate')
    CTX.prove('an interval of the list', And(0 <= r._id, r._id < k))
    CTX.prove('the interval holds the point', And(LO(r._id) <= x._z, x._z <= HI(r._id)))
    CTX.prove('at a common bound, the upper interval', Implies(r._id < k - 1, x._z < HI(r._id)))


def find_n(o, k, cum, npts):
    n = SInt(z3.Int('n'))

    class H:
        def invs(self, lid, v):
            s = {a: toint(t) for a, t in v.scalars().items() if kind(t) == 'i'}
            for a in s:
                yield 'range ' + a, And(0 <= s[a], s[a] <= k)
                yield 'index ' + a, And(0 <= s[a], s[a] < k)
                yield 'above ' + a, Or(s[a] == 0, cum(s[a]) <= n._z)
                yield 'below ' + a, Or(s[a] == k, n._z < cum(s[a] + 1))
                for b in s:
                    if a != b:
                        yield 'ordereq %s %s' % (a, b), s[a] <= s[b]
    CTX.loop_hints = [H()]
    try:
        r = o.nlocate(n)
    except ValueError:
        CTX.cover('refused')
        CTX.prove('only numbers out of range are refused', Or(n._z < 0, n._z >= npts))
        return
    except ERR as e:
        CTX.prove('nlocate does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
        return
    CTX.cover('located')
    if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[2], Ref)):
        raise Unsupported('result of nlocate')
    i, q = toint(r[0]), toint(r[1])
    CTX.prove('a point of the list', And(0 <= n._z, n._z < npts))
    CTX.prove('an interval of the list', And(0 <= i, i < k, r[2]._id == i))
    CTX.prove('number within the interval', q == n._z - cum(i))
    CTX.prove('the interval has that point', And(0 <= q, q < NP(i), Implies(i < k - 1, q < NP(i) - 1)))


def nonbase(kind, k):
    def path():
        m, o, bs, base, old = make(kind, k)
        L = list(o.ilist)
        r = run('nonbase', o.nonbase)
        CTX.cover('listed')
        keep = [p for p in L if any(p is q for q in r)]
        CTX.prove('only intervals of the list, in order', z3.BoolVal([id(p) for p in keep] == [id(p) for p in r]))
        for p in L:
            CTX.prove('the refined intervals', (toreal(p.step) != toreal(base.step)) == z3.BoolVal(any(p is q for q in r)))
        for i in range(k):
            CTX.prove('indexing', z3.BoolVal(o[i] is L[i]))
    explore(path)


TASKS += [('find point', find(find_x)), ('find number', find(find_n))] + [('nonbase %d' % k, lambda k=k: nonbase('lin', k)) for k in (1, 2, 3)]

TASKS.sort(key=lambda t: -('update' in t[0]) - 2 * ('from 0' in t[0]) - (t[0] == 'find number'))
