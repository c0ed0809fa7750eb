"""C16 one-dimensional grids: the integrals are the trapezoid rule of the stored
samples, and the samples are the function at the documented points."""
import z3
from z3 import And, Or, Implies, Not
from engine import loader
from engine.core import *
from engine.arr import NArr, VList, zint
from engine.lemmas import mksum, EXP, LOG
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'proof'
FILES = ['grid/grid1d.py']
FUNCTIONS = ['grid.grid1d.BasicGrid1D.%s' % f for f in ('__init__', 'trapzd', 'logtrapzd', 'logtrapzd_mom', 'stepfunc', 'vecfunc',
                                                        'point', 'subgrid')] + \
    ['grid.grid1d.Grid1D.' + f for f in ('trapzd', 'logtrapzd', 'logtrapzd_mom')] + ['grid.grid1d.IsPeak']
EXTS = ['_gridquad']
ASSUMPTIONS = ['real arithmetic for floats; numpy.exp/log/clip/sum by their real-analysis axioms and the finite-sum theory',
               'PeakParams: a function of the three points (its fitted numbers are not judged)', 'log values more than 725 below the largest count as 725 below it (the documented clip against underflow)']
BOUNDED = ['moments over several grids: 1, 2 and 4 grids; same maxima offered by both ways of evaluating: 3 and 4 points']
RUN_S = 6
TASK_S = 60
F = z3.Function('f', R, R)
F3 = z3.Function('fseq', R, I, R)
ERR = (IndexError, TypeError, ValueError, AttributeError, NameError, ZeroDivisionError, KeyError, RuntimeError)


def mk(m, log, stored, seq=False):
    """an arbitrary evaluated grid: (grid, n, abscissa function, value function, select)"""
    lo, hi, n = SReal(z3.Real('lo')), SReal(z3.Real('hi')), SInt(z3.Int('n'))
    CTX.assume([lo < hi, n >= 2])
    if log:
        CTX.assume(lo > 0)
    g = m.BasicGrid1D(lo, hi, n, 'log' if log else 'linear')
    if log:
        step = (SReal(LOG((hi / lo)._z)) / SReal(z3.ToReal(n._z - 1)))._z
        x = lambda k: (lo * SReal(EXP((SReal(step) * SReal(z3.ToReal(k)))._z)))._z
    else:
        step = (hi._z - lo._z) / z3.ToReal(n._z - 1)
        x = lambda k: lo._z + step * z3.ToReal(k)
    CTX.prove('the step is the range over the number of steps', toreal(g.step) == step)
    if stored:
        a = g.absc = NArr.fromfn((n,), lambda j, x=x: x(j[0]))
        f = a.store.cur
        x = lambda k: f((k,))
    sel = None
    if seq:
        V = NArr.fresh('v', (n, 3), 'r')
        g.vals, g.valSeq, sel = V, 3, 1
        cur = V.store.cur
        v = lambda k: cur((k, z3.IntVal(1)))
    else:
        V = NArr.fresh('v', (n,), 'r')
        g.vals, g.valSeq = V, None
        cur = V.store.cur
        v = lambda k: cur((k,))
    return g, n, x, v, sel, V


def trap(x, f, n):
    return mksum(lambda k: ((SReal(x(k + 1)) - SReal(x(k))) * (SReal(f(k)) + SReal(f(k + 1))) * 0.5)._z, 0, n._z - 1)


def run(name, f, *a, **k):
    try:
        return f(*a, **k)
    except ERR as e:
        CTX.prove('%s does not fail (%s)' % (name, type(e).__name__), z3.BoolVal(False))
        raise PathEnd()


def same_vals(V, cur0):
    j = [CTX.fresh('j', I) for _ in range(V.ndim)]
    CTX.prove('the stored samples are not modified', V.store.cur(tuple(j)) == cur0(tuple(j)))


def trapzd(log, stored, seq):
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        g, n, x, v, sel, V = mk(m, log, stored, seq)
        c0 = V.store.cur
        r = run('trapzd', g.trapzd, select=sel) if seq else run('trapzd', g.trapzd)
        CTX.cover('integrated')
        CTX.prove('trapezoid rule of the stored samples', toreal(r) == trap(x, v, n))
        same_vals(V, c0)
    explore(path)


TASKS = [('trapzd %s%s%s' % (a, b, c), lambda a=a, b=b, c=c: trapzd(a == 'log', b, c))
         for a in ('lin', 'log') for b in ('', ' stored') for c in ('', ' seq')]


def no_overflow(exp):
    def f(a):
        if isinstance(a, NArr):
            j = [CTX.fresh('je', I) for _ in a.shp]
            inr = And(*[And(0 <= i, i < zint(s)) for i, s in zip(j, a.shp)])
            CTX.prove('no exponential of a positive number', Implies(inr, a.frozen()(tuple(j)) <= 0))
        else:
            CTX.prove('no exponential of a positive number', toreal(a) <= 0)
        return exp(a)
    return f


def clipped(v, M):
    """exponential of the log value relative to the largest"""
    d = v - M
    return EXP(z3.If(d < -725, z3.RealVal(-725), d))


def logtrapzd(log, stored, seq, nmom):
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        CTX.memo_ext = True
        g, n, x, v, sel, V = mk(m, log, stored, seq)
        c0 = V.store.cur
        M = toreal((V[:, 1] if seq else V).max())
        kw = dict(select=sel) if seq else {}
        if nmom == 'plain':
            if not log:
                m.exp = no_overflow(m.exp)
            r = run('logtrapzd', g.logtrapzd, **kw)
        elif nmom is None:
            r = run('logtrapzd_mom', g.logtrapzd_mom, **kw)
        else:
            r = run('logtrapzd_mom', g.logtrapzd_mom, nmom, **kw)
        CTX.cover('integrated')
        if nmom in (1, 2):
            if not (isinstance(r, tuple) and len(r) == nmom + 1):
                raise Unsupported('result')
            q, moms = r[0], r[1:]
        else:
            q, moms = r, ()
        e = lambda k: clipped(v(k), M)
        S = trap(x, e, n)
        CTX.prove('log of the trapezoid rule of the exponentials', toreal(q) == M + LOG(S))
        E = EXP(M - toreal(q))
        for p, mom in enumerate(moms, 1):
            CTX.prove('moment %d: trapezoid rule with weight x**%d over the integral' % (p, p),
                      toreal(mom) == trap(x, (lambda k: E * e(k) * x(k)) if p == 1 else (lambda k: E * e(k) * x(k) * x(k)), n))
        same_vals(V, c0)
    explore(path)


TASKS += [('logtrapzd %s%s%s %s' % (a, b, c, d), lambda a=a, b=b, c=c, d=d: logtrapzd(a == 'log', b, c, d))
          for a in ('lin', 'log') for b in ('', ' stored') for c in ('', ' seq') for d in ('plain', None, 1, 2)]


def points(m, log):
    lo, hi, n = SReal(z3.Real('lo')), SReal(z3.Real('hi')), SInt(z3.Int('n'))
    CTX.assume([lo < hi, n >= 2])
    if log:
        CTX.assume(lo > 0)
    g = m.BasicGrid1D(lo, hi, n, 'log' if log else 'linear')
    N1 = z3.ToReal(n._z - 1)
    if log:
        x = lambda k: lo._z * EXP(LOG(hi._z / lo._z) / N1 * z3.ToReal(k))
    else:
        x = lambda k: lo._z + (hi._z - lo._z) / N1 * z3.ToReal(k)
    return g, lo, hi, n, x


def ends(x, lo, hi, n, log):
    """the last documented point is the upper end"""
    r = hi._z / lo._z
    return [x(n._z - 1) == hi._z, x(z3.IntVal(0)) == lo._z]


def lemma_ends(log):
    """x(0) = lo and x(n-1) = hi for the documented spacing"""
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        g, lo, hi, n, x = points(m, log)
        CTX.cover('grid')
        N1 = z3.ToReal(n._z - 1)
        CTX.prove('the first point is the lower end', x(z3.IntVal(0)) == lo._z)
        if log:
            L = LOG(hi._z / lo._z)
            CTX.prove('the steps add up', L / N1 * N1 == L)
            CTX.prove('the last point is the upper end', lo._z * EXP(L) == hi._z)
        else:
            CTX.prove('the last point is the upper end', x(n._z - 1) == hi._z)
    explore(path)


def sampling(log, how, seq):
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        g, lo, hi, n, x = points(m, log)
        if how == 'vec':
            def func(a):
                f = a.frozen()
                if seq:
                    return NArr.fromfn((n, 3), lambda j: F3(f((j[0],)), j[1]))
                return NArr.fromfn((n,), lambda j: F(f((j[0],))))
            run('vecfunc', g.vecfunc, func, **(dict(select=1) if seq else {}))
        else:
            def func(v):
                if seq:
                    return tuple(SReal(F3(toreal(v), z3.IntVal(i))) for i in range(3))
                return SReal(F(toreal(v)))
            CTX.roots, CTX.peel = [g], 2
            if seq:
                class H:
                    def invs(self, lid, v):
                        f = g.vals.store.cur
                        j, i = z3.Int('j!h'), z3.Int('i!h')
                        for d in (1, 2):
                            yield 'rows%d' % d, z3.ForAll([j, i], Implies(And(0 <= j, j < v.k + d, 0 <= i, i < 3), f((j, i)) == F3(x(j), i)))
                CTX.loop_hints = [H()]
            run('stepfunc', g.stepfunc, func, **(dict(select=1) if seq else {}))
        CTX.cover('sampled')
        V = g.vals
        if not isinstance(V, NArr) or V.ndim != 1 + bool(seq):
            raise Unsupported('stored values')
        CTX.prove('one value per point', zint(V.shp[0]) == n._z)
        k, i = CTX.fresh('k', I), CTX.fresh('i', I)
        inr = And(0 <= k, k < n._z - 1, 0 <= i, i < 3)
        last = And(0 <= i, i < 3)
        if seq:
            CTX.prove('kind of values noted', toint(g.valSeq) == 3)
            CTX.prove('values are those of the function at the points', Implies(inr, V.frozen()((k, i)) == F3(x(k), i)))
            L = V.frozen()((n._z - 1, i))
            CTX.prove('the last value is that at the upper end', Implies(last, Or(L == F3(hi._z, i), L == F3(x(n._z - 1), i))))
        else:
            CTX.prove('values are those of the function at the points', Implies(inr, V.frozen()((k,)) == F(x(k))))
            L = V.frozen()((n._z - 1,))
            CTX.prove('the last value is that at the upper end', Or(L == F(hi._z), L == F(x(n._z - 1))))
        if g.absc is not None:
            CTX.prove('stored abscissas are the points', Implies(inr, g.absc.frozen()((k,)) == x(k)))
            CTX.prove('the last abscissa is the upper end', Or(g.absc.frozen()((n._z - 1,)) == hi._z))
    explore(path)


def point(log, stored):
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        g, n, x, v, sel, V = mk(m, log, stored, False)
        k = SInt(z3.Int('k'))
        try:
            r = g.point(k)
        except ValueError:
            CTX.cover('refused')
            CTX.prove('only points off the grid are refused', Or(k._z < 0, k._z >= n._z))
            return
        except ERR as e:
            CTX.prove('point does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            return
        CTX.cover('point')
        CTX.prove('the point exists', And(0 <= k._z, k._z < n._z))
        CTX.prove('abscissa', toreal(r[0]) == x(k._z))
        CTX.prove('value', toreal(r[2]) == v(k._z))
        w = toreal(r[1])
        CTX.prove('no width beyond the last point', Implies(k._z == n._z - 1, w == 0))
        if log:
            st = toreal(g.step)
            lem = EXP(st * z3.ToReal(k._z + 1)) == EXP(st * z3.ToReal(k._z)) * EXP(st)     # exp(a+b)=exp(a)exp(b)
            CTX.prove('width is the distance to the next point', Implies(k._z < n._z - 1, w == x(k._z + 1) - x(k._z)), hyps=[lem])
        else:
            CTX.prove('width is the distance to the next point', Implies(k._z < n._z - 1, w == x(k._z + 1) - x(k._z)))
    explore(path)


TASKS += [('sampling %s %s%s' % (a, h, s), lambda a=a, h=h, s=s: sampling(a == 'log', h, s))
          for a in ('lin', 'log') for h in ('step', 'vec') for s in ('', ' seq')]
TASKS += [('point %s%s' % (a, b), lambda a=a, b=b: point(a == 'log', b)) for a in ('lin', 'log') for b in ('', ' stored')]
TASKS += [('ends ' + a, lambda a=a: lemma_ends(a == 'log')) for a in ('lin', 'log')]


# ------------------------------------------------- a grid made of several grids
TI, LI = z3.Function('integral', I, R), z3.Function('logintegral', I, R)


class Part:
    """contract of one sub-grid: what its integration methods return"""

    def __init__(self, z):
        self._id = z

    def trapzd(self, select=None):
        self.sel(select)
        return SReal(TI(self._id))

    def logtrapzd(self, select=None):
        self.sel(select)
        return SReal(LI(self._id))

    def logtrapzd_mom(self, nmom=None, select=None):
        self.sel(select)
        q = SReal(LI(self._id))
        return (q,) + tuple(SReal(z3.Function('mom%d' % p, I, R)(self._id)) for p in range(1, nmom + 1)) if nmom else q

    @staticmethod
    def sel(s):
        CTX.prove('the selection is passed on', z3.BoolVal(s == 2))


def toz_part(v):
    if not isinstance(v, Part):
        raise TypeError('not a grid')
    return v._id


class Parts(VList):
    custom = True

    @staticmethod
    def fresh():
        f, n = CTX.fresh_fn('part', I, I), CTX.fresh('nparts', I)
        CTX.assume(n >= 1)
        return Parts()._sym(SInt(n), lambda j: f(j), 'i', Part, toz_part), f, n


def exp_schema(fs, light):
    """exp(a + log b) = exp(a) b for positive b"""
    from engine import lemmas
    out = []
    for f in fs:
        for t in lemmas._info(f)[2]:
            if t.decl().eq(EXP) and z3.is_add(t.arg(0)):
                ch = t.arg(0).children()
                for c in ch:
                    if z3.is_app(c) and c.decl().eq(LOG):
                        rest = [x for x in ch if x is not c and not x.eq(c)]
                        if len(rest) == 1:
                            r = rest[0]
                            out.append(Implies(c.arg(0) > 0, t == EXP(r) * c.arg(0)))
                            for e in lemmas.subterms([c.arg(0)]):
                                if z3.is_app(e) and e.decl().eq(EXP):
                                    s = z3.simplify(e.arg(0) + r)
                                    out.append(EXP(s) == EXP(r) * e)
    return out


def refined(m):
    lo, hi, n = SReal(z3.Real('lo')), SReal(z3.Real('hi')), SInt(z3.Int('n'))
    CTX.assume([lo < hi, n >= 2])
    return m.Grid1D(lo, hi, n)


def parts_sum(log):
    def path():
        from engine import lemmas
        m = loader.fresh_import('inference.grid.grid1d')
        o = refined(m)
        o.glist, f, n = Parts.fresh()
        lemmas.EXTRA[:] = [exp_schema] if log else []
        if log:
            class H:
                def invs(self, lid, v):
                    for a, x in v.scalars().items():
                        if kind(x) == 'r':
                            for d in (0, 1):
                                yield '%s+%d' % (a, d), EXP(toreal(x)) == mksum(lambda k: EXP(LI(f(k))), 0, v.k + d)
            CTX.loop_hints = [H()]
            r = run('logtrapzd', o.logtrapzd, select=2)
            CTX.cover('summed')
            CTX.prove('the integral is the sum over the parts', EXP(toreal(r)) == mksum(lambda k: EXP(LI(f(k))), 0, n))
        else:
            r = run('trapzd', o.trapzd, select=2)
            CTX.cover('summed')
            CTX.prove('the integral is the sum over the parts', toreal(r) == mksum(lambda k: TI(f(k)), 0, n))
    explore(path)


TASKS += [('parts', lambda: parts_sum(False)), ('parts log', lambda: parts_sum(True))]


def parts_mom(count, nmom):
    """bounded in the number of parts"""
    def path():
        from engine import lemmas
        m = loader.fresh_import('inference.grid.grid1d')
        o = refined(m)
        ids = [z3.Int('part%d' % i) for i in range(count)]
        o.glist = VList([Part(i) for i in ids])
        lemmas.EXTRA[:] = [exp_schema]
        r = run('logtrapzd_mom', o.logtrapzd_mom, nmom, select=2) if nmom else run('logtrapzd_mom', o.logtrapzd_mom, select=2)
        CTX.cover('summed')
        L = [LI(i) for i in ids]
        if nmom and not (isinstance(r, tuple) and len(r) == nmom + 1):
            CTX.prove('one result per moment', z3.BoolVal(False))
            return
        q = toreal(r[0] if nmom else r)
        M = L[0]
        for l in L[1:]:
            M = z3.If(l > M, l, M)
        if nmom:
            CTX.prove('the integral is the sum over the parts', q == M + LOG(z3.Sum([EXP(l - M) for l in L])))
        else:
            CTX.prove('the integral is the sum over the parts', EXP(q) == z3.Sum([EXP(l) for l in L]))
        for p in range(1, (nmom or 0) + 1):
            f = z3.Function('mom%d' % p, I, R)
            CTX.prove('moment %d is the sum of the moments weighted by the integrals' % p,
                      toreal(r[p]) == z3.Sum([EXP(l - q) * f(i) for l, i in zip(L, ids)]))
    explore(path)


TASKS += [('parts moments %d of %d' % (p, c), lambda p=p, c=c: parts_mom(c, p)) for c in (1, 2, 4) for p in (1, 2)] + \
    [('parts no moments of %d' % c, lambda c=c: parts_mom(c, None)) for c in (1, 2)]


def subgrid(log):
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        g, n, x, v, sel, V = mk(m, log, log, False)
        CTX.opaque = True
        a, b = SInt(z3.Int('a')), SInt(z3.Int('b'))
        CTX.assume([a >= 0, a < b, b < n])
        st = SReal(CTX.fresh('step', R))         # any positive step
        CTX.assume(st > 0)
        g.step = st

        def rnd(t, nd=0):
            t = toreal(t)
            for k in (a, b):
                if CTX.valid(t == z3.ToReal(k._z), ms=1500).status == 'discharged':
                    return SReal(z3.ToReal(k._z))
            r = CTX.fresh('rounded', R)
            CTX.assume(And(Implies(z3.IsInt(t), r == t), r - t <= realval(0.005), t - r <= realval(0.005)))
            return SReal(r)
        m.round = rnd
        mult = [SReal(z3.ToReal(k._z)) * st for k in (a, b)]
        CTX.assume([And((t / st)._z == z3.ToReal(k._z)) for t, k in zip(mult, (a, b))])     # (k*step)/step = k
        if log:
            xl, xh = SReal(CTX.fresh('xl', R)), SReal(CTX.fresh('xh', R))
            for e, t in ((xl, mult[0]), (xh, mult[1])):      # the bounds are grid points
                CTX.assume(LOG((e / g.lo)._z) == t._z)
            CTX.assume([xl > 0, xh > 0])
        else:
            xl, xh = g.lo + mult[0], g.lo + mult[1]
        CTX.assume([xl >= g.lo, xh <= g.hi, xl < xh])
        try:
            s = g.subgrid(xl, xh)
        except ERR as e:
            CTX.prove('a range between grid points is accepted (%s)' % type(e).__name__, z3.BoolVal(False))
            return
        CTX.cover('subgrid')
        CTX.prove('number of points', toint(s.n) == b._z - a._z + 1)
        CTX.prove('bounds', And(toreal(s.lo) == xl._z, toreal(s.hi) == xh._z))
        CTX.prove('same spacing', z3.BoolVal(bool(s.isLin) == (not log)))
        k = CTX.fresh('k', I)
        if not isinstance(s.vals, NArr):
            raise Unsupported('values of the subgrid')
        CTX.prove('one value per point', zint(s.vals.shp[0]) == b._z - a._z + 1)
        CTX.prove('the values are those of the grid', Implies(And(0 <= k, k <= b._z - a._z), s.vals.frozen()((k,)) == v(k + a._z)))
        if s.absc is not None:
            CTX.prove('the points are those of the grid', Implies(And(0 <= k, k <= b._z - a._z), s.absc.frozen()((k,)) == x(k + a._z)))
    explore(path)


def additive():
    """lemma: contiguous parts of one set of points add up to the whole"""
    def path():
        t = CTX.fresh_fn('area', I, R)          # area over one step
        n, c = SInt(z3.Int('n')), SInt(z3.Int('c'))
        CTX.assume([0 < c, c < n - 1])
        CTX.cover('parts')
        CTX.prove('parts add up', mksum(t, 0, c._z) + mksum(t, c._z, n._z - 1) == mksum(t, 0, n._z - 1))
    explore(path)


TASKS += [('subgrid ' + a, lambda a=a: subgrid(a == 'log')) for a in ('lin', 'log')] + [('additivity', additive)]


def same_maxima(n, log, area):
    """bounded in the number of points: both ways of evaluating offer the same maxima"""
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        lo, hi = SReal(z3.Real('lo')), SReal(z3.Real('hi'))
        CTX.assume(lo < hi)
        if log:
            CTX.assume(lo > 0)

        class L:
            def __init__(self):
                self.got = []

            def update(self, q, label):
                self.got.append((q,) + tuple(label))

            def __len__(self):
                return 0
        PP = [z3.Function('peak%d' % i, *[R] * 7) for i in range(3)]

        def params(x, y):           # contract: a function of the three points
            a = [toreal(t[i]) for t in (x, y) for i in range(3)]
            return tuple(SReal(f(*a)) for f in PP)
        m.PeakParams = params
        l1, l2 = L(), L()
        kw = dict(rank='area' if area else 'peak')
        g1 = m.BasicGrid1D(lo, hi, n, 'log' if log else 'linear', lml=l1, **kw)
        g2 = m.BasicGrid1D(lo, hi, n, 'log' if log else 'linear', lml=l2, **kw)
        run('stepfunc', g1.stepfunc, lambda v: SReal(F(toreal(v))))

        def func(a):
            f = a.frozen()
            return NArr.fromfn((n,), lambda j: F(f((j[0],))))
        run('vecfunc', g2.vecfunc, func)
        CTX.cover('evaluated')
        CTX.prove('both offer the same number of maxima', z3.BoolVal(len(l1.got) == len(l2.got)))
        for a, b in zip(l1.got, l2.got):
            CTX.prove('both offer the same maximum', And(*[toreal(x) == toreal(y) for x, y in zip(a, b)]))
        v = [g1.vals.frozen()((z3.IntVal(i),)) for i in range(n)]
        peaks = lambda i: And(v[i - 1] < v[i], v[i] >= v[i + 1])
        cnt = z3.Sum([z3.If(peaks(i), 1, 0) for i in range(1, n - 1)] + [z3.If(v[0] > v[1], 1, 0), z3.If(v[-1] > v[-2], 1, 0)])
        CTX.prove('one offer per local maximum of the samples', cnt == len(l1.got))
    explore(path)


TASKS += [('same maxima %d %s %s' % (n, a, r), lambda n=n, a=a, r=r: same_maxima(n, a == 'log', r == 'area'))
          for n in (3, 4) for a in ('lin', 'log') for r in ('peak', 'area')]
