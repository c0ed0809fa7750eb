"""C18 on/off marginal likelihood series and Poisson terms (Fortran slmlike, slmliked, vslmlike, slml_offset, vslml_offset, ppois)."""
import z3
from z3 import And, Or, Implies, Not, If
from engine import loader, fext, lemmas
from engine.core import *
from engine.arr import NArr, zint
from engine.lemmas import EXP, LOG, LGAM, mksum
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'proof'
FILES = ['count/_cbmlike.f', 'count/_cbmlike.pyf', 'count/onoff.py']
FUNCTIONS = ['count._cbmlike.%s' % f for f in ('slmlike', 'slmliked', 'vslmlike', 'slml_offset', 'vslml_offset', 'ppois')]
EXTS = ['_cbmlike']
RUN_S = 8
TASK_S = 240
ASSUMPTIONS = ['real arithmetic for floating point; machine integers as mathematical',
               'gammln is the logarithm of the gamma function: used through LG(x+1) = LG(x) + log x (its approximation, good to about 2e-10, is compared with the C library at run time: bounded)',
               'real analysis facts about exp, log and sqrt, instantiated']
ERR = (IndexError, TypeError, ValueError, AttributeError, NameError, ZeroDivisionError, KeyError, RuntimeError, AssertionError)
T = z3.Function('T', I, R)          # the terms of the series


def run(f):
    try:
        r = f()
    except ERR as e:
        CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
        raise PathEnd()
    return r


def form(k, s, n_on, t_on, n_off, t_off, off):
    """logarithm of term k of the series"""
    k = z3.ToReal(k) if k.sort() == I else k
    return k * LOG(s * (t_on + t_off)) + LGAM(n_on + n_off - k + 1) - LGAM(n_on - k + 1) - LGAM(k + 1) - s * t_on - off


def ratios():
    """the gammln contract gives the ratio of successive terms"""
    def path():
        s, t_on, t_off, off, k, n_on, n_off = [z3.Real(x) for x in 's t_on t_off off k n_on n_off'.split()]
        CTX.assume(And(s > 0, t_on > 0, t_off > 0, n_off >= 0, k >= 1, k <= n_on))
        stt = s * (t_on + t_off)
        a, b = form(k, s, n_on, t_on, n_off, t_off, off), form(k - 1, s, n_on, t_on, n_off, t_off, off)
        u, v, w = n_on + n_off - k + 1, n_on - k + 1, k
        CTX.prove('difference of the logarithms', a - b == LOG(stt) - LOG(u) + LOG(v) - LOG(w),
                  hyps=[LGAM(n_on + n_off - (k - 1) + 1) == LGAM(n_on + n_off - k + 1) + LOG(u), LGAM(n_on - (k - 1) + 1) == LGAM(n_on - k + 1) + LOG(v), LGAM(k + 1) == LGAM(k - 1 + 1) + LOG(w)])
        r = lambda k: stt * (n_on - k + 1) / (k * (n_on + n_off - k + 1))
        CTX.prove('the ratio of successive terms decreases: one maximum', Implies(k + 1 <= n_on, r(k + 1) <= r(k)))
        x, y = z3.Real('x'), z3.Real('y')
        CTX.prove('ratio of the terms', EXP(x) * w * u == EXP(y) * stt * v,
                  hyps=[x == y + LOG(stt) - LOG(u) + LOG(v) - LOG(w), stt > 0, u > 0, v > 0, w > 0,
                        EXP(x) * EXP(LOG(u)) * EXP(LOG(w)) == EXP(y) * EXP(LOG(stt)) * EXP(LOG(v)),
                        EXP(LOG(u)) == u, EXP(LOG(v)) == v, EXP(LOG(w)) == w, EXP(LOG(stt)) == stt])
        CTX.cover('terms')
    explore(path)


def grows(z):
    """after an iteration: was something added to the value at its start? (None: not known)
    Only spares attempts at sums of what is multiplied, and the converse."""
    z = z3.simplify(z)
    own = lambda e: z3.is_const(e) and str(e).startswith('h_')
    if own(z) or not any(own(t) for t in lemmas.subterms([z])):
        return None
    return z3.is_add(z) and any(own(c) for c in z.children())


def plainly(g):
    """valid whatever the path condition"""
    q = z3.Solver()
    q.set('timeout', 1000)
    q.add(Not(g))
    return q.check() == z3.unsat


def factors(z):
    """numerator factors of a product or quotient"""
    if z3.is_mul(z):
        return [f for c in z.children() for f in factors(c)]
    if z3.is_div(z):
        return factors(z.arg(0))
    return [z]


class Series:
    """contract of one evaluation: the starting term km; loop invariants (the
    current term, sums of terms, count of terms); products and quotients that
    are a neighbouring term (proved) are written as that term"""

    def __init__(self, s, n_on, t_on, n_off, t_off, off, cut):
        self.a = s, n_on, t_on, n_off, t_off, off
        self.n_on, self.n_off, self.cut = n_on, n_off, cut
        self.s, self.t_on, self.t_off = s, t_on, t_off
        self.stt = s * (t_on + t_off)
        self.km = None
        self.ints = []
        self.seen = {}

    def exp(self, x):
        """exponentials of the logarithm of a term"""
        x = toreal(x)
        for k in [self.n_on] + self.ints:
            if CTX.valid(And(0 <= k, k <= self.n_on, self.stt > 0), ms=1000).status != 'discharged':
                continue
            if CTX.valid(x == form(k, *self.a), ms=1000).status == 'discharged':
                CTX.prove('the starting term is a term of the series', x == form(k, *self.a))
                self.km = k
                self.largest(k)
                # how the index was found does not matter from here on: hypotheses dropped
                CTX.pc[:] = [And(0 <= k, k <= self.n_on), self.stt > 0] + self.pre
                CTX.normal = self.normal
                return SReal(T(k))
        return SReal(EXP(x))

    def largest(self, k):
        """no term is larger than term k: the ratio of successive terms, which
        decreases (lemma), is at least one up to k and at most one from there on"""
        n, nn, tr = z3.ToReal(self.n_on), z3.ToReal(self.n_on + self.n_off), z3.ToReal
        q = lambda a: a * (nn - a + 1) <= self.stt * (n - a + 1)            # T(a) >= T(a-1)
        up = lambda a: a * (nn - a + 1) >= self.stt * (n - a + 1)
        goals = [('terms do not decrease up to the starting one', Or(k == 0, q(tr(k)))), ('terms do not increase after the starting one', Or(k == self.n_on, up(tr(k) + 1)))]
        for nm, goal in goals:
            CTX.prove(nm, goal)

    def ratio(self, a):
        """T(a) over T(a-1)"""
        tr = lambda e: z3.ToReal(z3.simplify(e))
        return self.stt * tr(self.n_on - a + 1) / (tr(a) * tr(self.n_on + self.n_off - a + 1))

    def normal(self, r):
        z = r._z
        if z3.is_div(z):
            z = z3.simplify(z)
        fs = [(f, f.arg(0)) for f in factors(z) if z3.is_app(f) and f.decl().eq(T)]
        for f in factors(z):
            if z3.is_const(f) and str(f).startswith('h_'):
                fs += [(f, (e.arg(1) if e.arg(0).eq(f) else e.arg(0)).arg(0)) for e in CTX.pc if z3.is_eq(e) and any(c.eq(f) for c in e.children())
                       and any(z3.is_app(c) and c.decl().eq(T) for c in e.children())]
        for f in factors(z):
            if z3.is_app_of(f, z3.Z3_OP_ITE) and all(z3.is_app(c) and c.decl().eq(T) for c in f.children()[1:]):
                for c in f.children()[1:]:
                    if z3.is_true(z3.simplify(f == c)) or plainly(f == c):
                        z = z3.simplify(z3.substitute(z, (f, c)))
                        fs.append((c, c.arg(0)))
                        break
        for f, j in fs[:2]:
            num = lambda e: z3.simplify(z3.substitute(e, *[(c, v) for c, v in self.sample(e, f)]))
            for a, q in ((j + 1, self.ratio(j + 1)), (j - 1, 1 / self.ratio(j))):
                v, w = num(z), num(q)
                if not v.eq(w):
                    continue
                up = const_of(z3.simplify(a - j)) == 1
                top = z3.simplify(a if up else j)           # the larger index of the two
                if CTX.valid(And(1 <= top, top <= self.n_on), ms=1000).status != 'discharged' or \
                        not (f.decl().eq(T) or CTX.valid(f == T(j), ms=1000).status == 'discharged'):
                    continue
                # as an identity of rational functions of real variables
                X = z3.simplify(z3.substitute(z, (f, z3.RealVal(1))))
                ints = [t for t in lemmas.subterms([X, top, self.n_on, self.n_off]) if z3.is_const(t) and t.sort() == I and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]
                sub = [(z3.ToReal(t), z3.Real('real#' + str(t))) for t in ints]
                re = lambda e: z3.substitute(z3.simplify(e), *sub)
                goal = re(X) == re(q)
                hyps = [re(z3.ToReal(top)) >= 1, re(z3.ToReal(self.n_on - top)) >= 0, re(z3.ToReal(self.n_off)) >= 0, self.s > 0, self.t_on > 0, self.t_off > 0]
                keep = CTX.pc[:]
                CTX.pc[:] = hyps
                try:
                    if CTX.valid(goal, ms=3000).status == 'discharged':
                        CTX.prove('the recurrence gives the neighbouring term', goal)
                        return SReal(T(z3.simplify(a)))
                finally:
                    CTX.pc[:] = keep
        return r

    def sample(self, e, f):
        out = [(f, z3.RealVal(1))]
        for t in lemmas.subterms([e]):
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(f):
                v = 2 + sum(ord(c) * (i + 3) for i, c in enumerate(str(t))) % 911
                out.append((t, z3.IntVal(v) if t.sort() == I else z3.RealVal(v) / 7 if t.sort() == R else t))
        return out

    def facts(self, fs, light):
        ts = [t for t in lemmas.subterms(fs) if z3.is_app(t) and t.decl().eq(T)]
        if light:
            return [t > 0 for t in ts]
        out, seen = [], set()
        n_on, N = self.n_on, self.n_on + self.n_off
        for t in ts:
            out.append(t > 0)
            for a in (t.arg(0), t.arg(0) + 1):
                a = z3.simplify(a)
                if a.get_id() not in seen:
                    seen.add(a.get_id())
                    A, B, tr = T(a), T(z3.simplify(a - 1)), lambda e: z3.ToReal(z3.simplify(e))
                    out.append(Implies(And(1 <= a, a <= n_on), And(A * tr(a) * tr(N - a + 1) == B * self.stt * tr(n_on - a + 1),
                                                                   A == B * self.ratio(a), B == A * tr(N - a + 1) * tr(a) / (self.stt * tr(n_on - a + 1)))))
        return [z3.simplify(o) for o in out]

    def weight(self, j):
        return (SReal(z3.ToReal(j)) / SReal(self.s) - SReal(self.t_on))._z

    def sum(self, lo, hi, der=False):
        return mksum(lambda j: T(j) * (z3.ToReal(j) / self.s - self.t_on) if der else T(j), lo, hi)

    def invs(self, lid, view):
        e, e0 = view.env, view.env0
        k = e.get('k')
        if self.km is None or not isinstance(k, SInt) or not isinstance(e0.get('k'), SInt):
            return
        k, km = k._z, e0['k']._z
        entry = z3.is_int_value(view.k)
        for up in (0, 1):
            if not entry and const_of(z3.simplify(k - km - (view.k if not up else -view.k))) == 0 and const_of(z3.simplify(k - km - (view.k if up else -view.k))) != 0:
                continue                # runs the other way
            side = ' up' if up else ' down'
            vs = []
            for nm in e:
                v, v0 = e[nm], e0.get(nm)
                kv = kind(v)
                if nm == 'k' or kv not in ('r', 'i') or kind(v0) != kv:
                    continue
                z, z0 = (toreal(v), toreal(v0)) if kv == 'r' else (toint(v), toint(v0))
                if entry or not z.eq(z0):
                    vs.append((nm, kv, z, z0))
            acc = {nm: grows(z) for nm, kv, z, z0 in vs}
            for nm, kv, z, z0 in vs:
                if not entry and kv == 'r' and acc[nm]:
                    yield nm + ' is the current term' + side, z3.BoolVal(False)
                elif kv == 'r' and (not entry or z3.simplify(z0).eq(z3.simplify(T(km)))):
                    yield nm + ' is the current term' + side, z == T(k)
            yield 'k' + side, And(km <= k, k <= self.n_on) if up else And(k <= km, 0 <= k)


def cmpterm(e):
    """comparison of a term with the cutoff"""
    while z3.is_not(e):
        e = e.arg(0)
    return (z3.is_le(e) or z3.is_lt(e) or z3.is_ge(e) or z3.is_gt(e)) and 'T' in lemmas._decl_names([e])


def f_int(ser):
    def f(x):
        if not isinstance(x, SReal):
            return fext.f_int(x)
        CTX.prove('the index of the largest term is not negative', toreal(x) > -1)
        q = CTX.fresh('trunc', I)
        CTX.assume(And(q >= 0, toreal(x) < z3.ToReal(q) + 1, Or(q == 0, z3.ToReal(q) <= toreal(x))))
        ser.ints.append(q)
        return SInt(q)
    return f


def fork_min(a, b):
    return a if a <= b else b


def data():
    n_on, n_off, t_on, t_off = z3.Int('n_on'), z3.Int('n_off'), z3.Real('t_on'), z3.Real('t_off')
    CTX.assume(And(n_on >= 0, n_off >= 0, t_on > 0, t_off > 0))
    return n_on, n_off, t_on, t_off


def gl(x):
    CTX.prove('log gamma of a positive number', toreal(x) > 0)
    return SReal(LGAM(toreal(x)))


def series(which):
    def path():
        n_on, n_off, t_on, t_off = data()
        s, off, cut = z3.Reals('s off cut')
        CTX.assume(And(s > 0, cut >= 0, cut < 1))
        ser = Series(s, n_on, t_on, n_off, t_off, off, cut)
        fext.use('inference.count._cbmlike', {'gammln': gl, 'f_int': f_int(ser), 'min': fork_min, 'exp': ser.exp})
        m = loader.fresh_import('inference.count.onoff')
        ser.pre = list(CTX.pc)
        lemmas.EXTRA[:] = [ser.facts]
        CTX.loop_hints = [ser]
        r = run(lambda: getattr(m, which)(SReal(s), SInt(n_on), SReal(t_on), SInt(n_off), SReal(t_off), SReal(off), SReal(cut)))
        post(ser, which, list(r))
        CTX.cover('returned')
    explore(path)


def post(ser, which, r):
    """result, (derivative), number of terms, error flag"""
    der = which == 'slmliked'
    if len(r) != (4 if der else 3):
        CTX.prove('as many results as documented', z3.BoolVal(False))
        raise PathEnd()
    val, dval, nt, ierr = r if der else (r[0], None, r[1], r[2])
    nt, ierr = toint(nt), toint(ierr)
    n_on, cut = ser.n_on, ser.cut
    if ser.km is None:
        out = lambda k: And(0 <= k, k <= n_on, Or(form(k, *ser.a) < -700, form(k, *ser.a) > 700))
        ks = [k for k in [n_on] + ser.ints if CTX.valid(out(k), ms=2000).status == 'discharged']
        CTX.prove('an error is flagged only if the starting term is out of range', And(ierr == 1, out(ks[0]) if ks else z3.BoolVal(False)))
        return
    CTX.prove('no error flagged', ierr == 0)
    km, v = ser.km, z3.simplify(toreal(val))
    # from here on: only that the terms are positive, and not the products
    lemmas.EXTRA[:] = [lambda fs, light: ser.facts(fs, True)]
    CTX.pc[:] = [e for e in CTX.pc if not ({'LOG', 'LGAM', 'SQRT'} & set(lemmas._decl_names([e])))]
    ks = [z3.IntVal(0)] + [t for t in lemmas.subterms([v, nt]) if z3.is_const(t) and str(t).startswith('k_') and t.sort() == I]
    stop = lambda lo, hi: [('terms between the first and last of the series', And(0 <= lo, lo <= km, km <= hi, hi <= n_on)),
                           ('number of terms', nt == hi - lo + 1),
                           ('sum ends at the first term or at one below the cutoff', Or(lo == 0, T(lo) <= cut * T(km))),
                           ('sum ends at the last term or at one below the cutoff', Or(hi == n_on, T(hi) <= cut * T(km)))]
    S = lambda lo, hi: T(km) + mksum(lambda i: T(km - 1 - i), z3.IntVal(0), km - lo) + mksum(lambda i: T(km + 1 + i), z3.IntVal(0), hi - km)
    w = lambda j: T(j) * (z3.ToReal(j) / ser.s - ser.t_on)
    D = lambda lo, hi: w(km) + mksum(lambda i: w(km - 1 - i), z3.IntVal(0), km - lo) + mksum(lambda i: w(km + 1 + i), z3.IntVal(0), hi - km)
    best = None
    for k1 in ks:
        for d1 in (0, 1):
            for k2 in ks:
                for d2 in (0, 1):
                    if k1.eq(k2) and not z3.is_int_value(k1):
                        continue
                    lo, hi = z3.simplify(km - k1 - d1), z3.simplify(km + k2 + d2)
                    ok = all(CTX.valid(g, ms=1000).status == 'discharged' for _, g in stop(lo, hi))
                    if ok:
                        best = lo, hi
                        break
                if best:
                    break
            if best:
                break
        if best:
            break
    if not best:
        raise Unsupported('range of the terms summed not recognised')
    lo, hi = best
    for nm, g in stop(lo, hi):
        CTX.prove(nm, g)
    if not (z3.is_app(v) and v.decl().eq(LOG)):
        raise Unsupported('result is not the logarithm of a sum')
    CTX.pc[:] = [k >= 0 for k in ks]
    CTX.prove('logarithm of the sum of those terms', v.arg(0) == S(lo, hi))
    if der:
        dv = z3.simplify(toreal(dval))
        if not z3.is_div(dv):
            raise Unsupported('derivative is not a quotient')
        CTX.prove('derivative: denominator is the sum', dv.arg(1) == S(lo, hi))
        CTX.prove('derivative: numerator is the sum of the derivatives of the terms', pointwise(dv.arg(0), [lambda i: w(km - 1 - i), lambda i: w(km + 1 + i)]) == D(lo, hi))


def pointwise(e, fs):
    """sums whose terms are shown equal to those of one of the functions, written with that function"""
    sub, i, j = [], z3.Int('i#sum'), z3.Real('j#sum')
    for t in lemmas.subterms([e]):
        if z3.is_app(t) and t.decl().eq(lemmas.SUM):
            for f in fs:
                a, b = z3.simplify(z3.Select(t.arg(0), i)), z3.simplify(f(i))
                ts = [x for x in lemmas.subterms([a, b]) if z3.is_app(x) and x.decl().eq(T)]
                if not ts or any(not x.eq(ts[0]) for x in ts):
                    continue
                ints = [x for x in lemmas.subterms([a, b]) if z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
                re = lambda x: z3.substitute(x, (ts[0], z3.Real('T#sum')), *[(z3.ToReal(y), z3.Real('real#' + str(y))) for y in ints])
                keep = CTX.pc[:]
                CTX.pc[:] = [z3.Real('s') > 0]
                try:
                    if CTX.valid(re(a) == re(b), ms=2000).status == 'discharged':
                        CTX.prove('terms of the sum', re(a) == re(b))
                        sub.append((t, mksum(f, t.arg(1), t.arg(2))))
                        break
                finally:
                    CTX.pc[:] = keep
    return z3.substitute(e, *sub)


def stub():
    fext.use('inference.count._cbmlike', {'gammln': gl})
    return loader.fresh_import('inference.count.onoff')


def zero(which):
    """no signal: only the first term is left"""
    def path():
        n_on, n_off, t_on, t_off = data()
        off, cut = z3.Reals('off cut')
        CTX.assume(And(cut >= 0, cut < 1))
        m = stub()
        r = run(lambda: getattr(m, which)(SReal(z3.RealVal(0)), SInt(n_on), SReal(t_on), SInt(n_off), SReal(t_off), SReal(off), SReal(cut)))
        val, nt, ierr = r[0], r[-2], r[-1]
        a, b = z3.ToReal(n_on + n_off + 1), z3.ToReal(n_on + 1)
        CTX.prove('logarithm of the first term', toreal(val) == LGAM(a) - LGAM(b) - off)
        CTX.prove('one term, no error', And(toint(nt) == 1, toint(ierr) == 0))
        if which == 'slmliked':
            u, v, tf = z3.ToReal(n_on + n_off), z3.ToReal(n_on), 1 + t_off / t_on
            # with LG(x+1) = LG(x) + log x
            d = toreal(r[1])
            es = [t for t in lemmas.subterms([d]) if z3.is_app(t) and t.decl().eq(EXP)]
            x = LOG(tf) - LOG(u) + LOG(v)
            hy = [Implies(n_on >= 1, And(LGAM(a) == LGAM(u) + LOG(u), LGAM(b) == LGAM(v) + LOG(v)))]
            for e in es:
                CTX.prove('exponent', Implies(n_on >= 1, e.arg(0) == x), hyps=hy)
            hy = [Implies(n_on >= 1, And(EXP(x) * EXP(LOG(u)) == EXP(LOG(tf)) * EXP(LOG(v)), EXP(LOG(u)) == u, EXP(LOG(v)) == v))] + [EXP(LOG(tf)) == tf]
            hy += [Implies(n_on >= 1, e == EXP(x)) for e in es]
            CTX.prove('derivative at zero signal', Implies(n_on >= 1, d * u == (t_on + t_off) * v - t_on * u), hyps=hy)
            CTX.prove('derivative at zero signal, no counts on', Implies(n_on == 0, d == -t_on))
        CTX.cover('returned')
    explore(path)


def offset():
    """log of a scale factor: of a term of the series at the estimated peak,
    of the first one if the estimate is not positive"""
    def path():
        n_on, n_off, t_on, t_off = data()
        ints = []

        def f_int(x):
            if not isinstance(x, SReal):
                return fext.f_int(x)
            q = CTX.fresh('trunc', I)
            CTX.assume(Implies(q >= 1, toreal(x) >= z3.ToReal(q)))
            ints.append(q)
            return SInt(q)

        def log(x):
            CTX.prove('logarithm of a positive number', toreal(x) > 0)
            return SReal(LOG(toreal(x)))
        fext.use('inference.count._cbmlike', {'gammln': gl, 'f_int': f_int, 'min': fork_min, 'log': log})
        m = loader.fresh_import('inference.count.onoff')
        r = toreal(run(lambda: m.slml_offset(SInt(n_on), SReal(t_on), SInt(n_off), SReal(t_off))))
        s = z3.ToReal(n_on) / t_on - z3.ToReal(n_off) / t_off
        first = LGAM(z3.ToReal(n_on + n_off + 1)) - LGAM(z3.ToReal(n_on + 1))
        goals = [r == first] + [And(1 <= k, k <= n_on, r == form(k, s, n_on, t_on, n_off, t_off, z3.RealVal(0))) for k in [n_on] + ints]
        for g in goals:
            if CTX.valid(g, ms=5000).status == 'discharged':
                CTX.prove('a term of the series', g)
                break
        else:
            raise Unsupported('offset not recognised')
        CTX.cover('returned')
    explore(path)


F1 = z3.Function('slmlike', R, I, R, I, R, R, R, R)
F2 = z3.Function('slml_offset', I, R, I, R, R)


def vector(which):
    """elementwise"""
    def path():
        calls = {'slmlike': lambda s, a, b, c, d, o, u, *_: (SReal(F1(toreal(s), toint(a), toreal(b), toint(c), toreal(d), toreal(o), toreal(u))), SInt(CTX.fresh('nt', I)), SInt(CTX.fresh('ierr', I))),
                 'slml_offset': lambda a, b, c, d: SReal(F2(toint(a), toreal(b), toint(c), toreal(d)))}
        fext.use('inference.count._cbmlike', calls)
        m = loader.fresh_import('inference.count.onoff')
        n = z3.Int('n')
        CTX.assume(n >= 0)
        t_on, t_off, cut = z3.Reals('t_on t_off cut')
        a, c = NArr.fresh('n_on', (SInt(n),), 'i'), NArr.fresh('n_off', (SInt(n),), 'i')
        s, o = NArr.fresh('s', (SInt(n),)), NArr.fresh('off', (SInt(n),))
        at = lambda x, j: x.store.cur((j,))
        q = CTX.fresh('q', I)
        CTX.assume(And(0 <= q, q < n))
        old = [at(x, q) for x in (a, c, s, o)]
        if which == 'vslmlike':
            r = run(lambda: m.vslmlike(s, a, SReal(t_on), c, SReal(t_off), o, SReal(cut)))
            want = F1(at(s, q), at(a, q), t_on, at(c, q), t_off, at(o, q), cut)
        else:
            r = run(lambda: m.vslml_offset(a, SReal(t_on), c, SReal(t_off)))
            want = F2(at(a, q), t_on, at(c, q), t_off)
        CTX.prove('one result for each element', toint(r.shape[0]) == n)
        CTX.prove('each the result for the single values', at(r, q) == want)
        CTX.prove('arguments not modified', And(*[at(x, q) == y for x, y in zip((a, c, s, o), old)]))
        CTX.cover('returned')
    explore(path)


FAC = z3.Function('factorial', I, R)
JUNK = z3.Function('junk', I, R)


class Table:
    """after k iterations the saved table holds k further factorials"""

    def __init__(self, store, top):
        self.store, self.top = store, top

    def content(self, lid, view):
        yield {self.store: (lambda k, j: And(self.top < j[0], j[0] <= self.top + k), lambda j: FAC(j[0]))}


def ppois():
    """Poisson probability, from any state its earlier calls can leave
    (the saved table holds the factorials up to the saved last one)"""
    def path():
        ns = fext.namespace('count/_cbmlike.f', {'gammln': gl})
        if 'ppois' not in ns:
            raise Unsupported('no routine ppois')
        n, dm = z3.Int('n'), z3.Real('dm')
        CTX.assume(And(n >= 0, dm >= 0))

        def schema(fs, light):
            out = [FAC(z3.IntVal(0)) == 1]
            for t in lemmas.subterms(fs):
                if z3.is_app(t) and t.decl().eq(FAC):
                    out.append(t > 0)
                    for a in (t.arg(0), t.arg(0) + 1):
                        a = z3.simplify(a)
                        out.append(Implies(a >= 1, FAC(a) == z3.ToReal(a) * FAC(z3.simplify(a - 1))))
            return [z3.simplify(o) for o in out]
        lemmas.EXTRA[:] = [schema]
        sv = ns.get('_save_ppois')
        if sv is not None:
            st = {k: v for k, v in vars(sv).items() if not k.startswith('__')}
            arrs = [k for k, v in st.items() if isinstance(v, NArr)]
            tops = [k for k, v in st.items() if not isinstance(v, NArr)]
            if len(arrs) != 1 or len(tops) != 1 or st[arrs[0]].ndim != 1:
                raise Unsupported('saved state not recognised')
            size = toint(st[arrs[0]].shape[0])

            def inv(a, top):
                q = CTX.fresh('q', I)
                return And(0 <= toint(top), toint(top) < size, Implies(And(0 <= q, q <= toint(top)), a.store.cur((q,)) == FAC(q)))
            CTX.prove('initial state', inv(st[arrs[0]], st[tops[0]]))
            top = z3.Int('top')
            CTX.assume(And(0 <= top, top < size))
            setattr(sv, tops[0], SInt(top))
            setattr(sv, arrs[0], NArr.fromfn(st[arrs[0]].shape, lambda j: If(j[0] <= top, FAC(j[0]), JUNK(j[0]))))
            CTX.loop_hints = [Table(getattr(sv, arrs[0]).store, top)]
        r = toreal(run(lambda: ns['ppois'](SInt(n), SReal(dm))))
        if sv is not None:
            CTX.prove('state left for later calls', inv(getattr(sv, arrs[0]), getattr(sv, tops[0])))
        if CTX.branch(dm == 0):
            CTX.prove('no events expected', r == If(n == 0, z3.RealVal(1), z3.RealVal(0)))
        elif 'LGAM' in lemmas._decl_names([r]):
            CTX.prove('Poisson probability, from logarithms', r == EXP(z3.ToReal(n) * LOG(dm) - dm - LGAM(z3.ToReal(n) + 1)))
        else:
            CTX.prove('Poisson probability', r * FAC(n) == lemmas.POW(dm, z3.ToReal(n)) * EXP(-dm))
        CTX.cover('returned')
    explore(path)


TASKS = [('term ratios', ratios)]
TASKS += [('%s' % w, lambda w=w: series(w)) for w in ('slmlike', 'slmliked')]
TASKS += [('%s, no signal' % w, lambda w=w: zero(w)) for w in ('slmlike', 'slmliked')]
TASKS += [('slml_offset', offset), ('vslmlike', lambda: vector('vslmlike')), ('vslml_offset', lambda: vector('vslml_offset'))]
TASKS += [('ppois', ppois)]
