"""C17 on/off signal count probabilities and marginal posterior (count.OnOff, Fortran sigctp, psigc)."""
import z3
from z3 import And, Or, Implies, Not, If
from engine import loader, fext, lemmas
from engine.core import *
from engine.arr import NArr, zint
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'proof'
FILES = ['count/onoff.py', 'count/_cbmlike.f', 'count/_cbmlike.pyf']
FUNCTIONS = ['count.onoff.OnOff.%s' % f for f in ('__init__', 'siglml', 'sigmp', 'pnsig')] + ['count._cbmlike.sigctp', 'count._cbmlike.psigc']
EXTS = ['_cbmlike']
RUN_S = 6
TASK_S = 120
ASSUMPTIONS = ['real arithmetic for floating point; machine integers as mathematical (n_on + n_off and t_on*n_off/t_off within the range of a 32-bit integer)',
               'the Poisson probability used by psigc has the contract proved for it in C18']
ERR = (IndexError, TypeError, ValueError, AttributeError, NameError, ZeroDivisionError, KeyError, RuntimeError, AssertionError)

V = z3.Function('V', I, I, R)       # V(m, j): probability of j signal counts over that of m
PP = z3.Function('PP', I, R, R)     # Poisson probability (contract of ppois: C18)


def run(f):
    try:
        r = f()
    except ERR as e:
        CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
        raise PathEnd()
    CTX.cover('returned')
    return r


def data():
    n_on, n_off, t_on, t_off = z3.Int('n_on'), z3.Int('n_off'), z3.Real('t_on'), z3.Real('t_off')
    CTX.assume(And(n_on >= 0, n_off >= 0, t_on > 0, t_off > 0))
    return n_on, n_off, t_on, t_off


def law(n_on, n_off, t_on, t_off):
    """the terms are proportional to (1+t_off/t_on)^j (n_on+n_off-j)!/(n_on-j)!;
    V(m, .) has these ratios of successive terms and is 1 at m"""
    tf = 1 + t_off / t_on

    def schema(fs, light):
        out = []
        for t in lemmas.subterms(fs):
            if z3.is_app(t) and t.decl().eq(V):
                m, j = t.children()
                out.append(t > 0)
                out.append(V(m, m) == 1)
                for a in (j, j + 1):
                    a = z3.simplify(a)
                    out.append(Implies(And(1 <= a, a <= n_on), V(m, a) * z3.ToReal(n_on + n_off - a + 1) == V(m, a - 1) * tf * z3.ToReal(n_on - a + 1)))
        return [z3.simplify(o) for o in out]
    lemmas.EXTRA[:] = [schema]


class Content:
    """what the loops of sigctp have put into c after k iterations"""
    m = None

    def content(self, lid, view):
        ms = [zint(v) for nm, v in sorted(view.env0.items()) if isinstance(v, (SInt, int)) and not isinstance(v, bool)]
        arrs = [nm for nm, v in view.env0.items() if isinstance(v, NArr) and v.ndim == 1]
        for nm in arrs:
            cur = view.env0[nm].store.cur
            for m in ms:
                if CTX.valid(cur((m,)) == 1, ms=500).status == 'discharged':
                    self.m = m
                    for nb, sh in ((m - 1, lambda k, j, m=m: And(m - k <= j[0], j[0] < m)), (m + 1, lambda k, j, m=m: And(m < j[0], j[0] <= m + k))):
                        if CTX.valid(cur((nb,)) == V(m, nb), ms=500).status != 'discharged':        # (that side not yet done)
                            yield {nm: (sh, lambda j, m=m: V(m, j[0]))}
                    break


def f_int(x):
    if not isinstance(x, SReal):
        return fext.f_int(x)
    q = CTX.fresh('trunc', I)           # any integer: the starting term does not affect the result
    return SInt(q)


def fork_max(a, b):
    return a if a >= b else b


def fork_min(a, b):
    return a if a <= b else b


def sigctp():
    def path():
        fext.use('inference.count._cbmlike', {'f_int': f_int, 'max': fork_max, 'min': fork_min})
        m = loader.fresh_import('inference.count.onoff')
        n_on, n_off, t_on, t_off = data()
        law(n_on, n_off, t_on, t_off)
        hint = Content()
        CTX.loop_hints = [hint]
        c = run(lambda: m.sigctp(SInt(n_on), SReal(t_on), SInt(n_off), SReal(t_off)))
        cur = lambda j: c.store.cur((j,))
        CTX.prove('as many probabilities as counts 0..n_on', toint(c.shape[0]) == n_on + 1)
        p = CTX.fresh('p', I)
        CTX.assume(And(0 <= p, p <= n_on))
        if hint.m is None:
            raise Unsupported('no starting term found')
        m = hint.m
        F = lambda j: V(m, j)
        sm = lambda lo, hi: lemmas.mksum(F, lo, hi)
        # the sums in the normalisation, as sums of the ratios below and above the starting term
        A, B, T, A1 = sm(z3.IntVal(0), m), sm(m + 1, n_on + 1), sm(z3.IntVal(0), n_on + 1), sm(z3.IntVal(0), m + 1)
        CTX.prove('sum up to the starting term', A1 == A + F(m))
        CTX.prove('sum of the two sides', T == A1 + B)
        CTX.prove('sums are not negative', And(A >= 0, B >= 0))
        a, b, q = z3.Real('sum#below'), z3.Real('sum#above'), z3.Int('q')
        sums = [t for t in lemmas.subterms([z3.simplify(cur(m))]) if z3.is_app(t) and t.decl().eq(lemmas.SUM)]
        facts = []
        for t in sums:
            for x in [x for x in (A, B, T) if not any(x is y for _, y in facts)]:
                if CTX.valid(t == x, ms=3000).status == 'discharged':
                    CTX.prove('sum of the unnormalised terms on one side', t == x)
                    facts.append((t, x))
                    break
        ab = ((A, a), (B, b), (T, a + b + 1))

        def cn(j):               # with the sums named
            e = z3.simplify(cur(j))
            return z3.substitute(e, *[(t, dict((x.get_id(), y) for x, y in ab)[x.get_id()]) for t, x in facts])
        pos = [a >= 0, b >= 0]
        for x, y in ab[:2]:
            if CTX.valid(x == 0, ms=1000).status == 'discharged':
                CTX.prove('nothing on one side', x == 0)
                pos.append(y == 0)
        x0, x1 = z3.Real('x0'), z3.Real('x1')
        CTX.prove('not negative', cn(p) >= 0, hyps=pos)
        CTX.prove('normalised ratio to the starting term', cn(p) * (a + b + 1) == F(p), hyps=pos)
        CTX.prove('starting term', cn(m) * (a + b + 1) == 1, hyps=pos)
        CTX.prove('ratio of successive probabilities', Implies(p >= 1, x1 * z3.ToReal(n_on + n_off - p + 1) == x0 * (1 + t_off / t_on) * z3.ToReal(n_on - p + 1)),
                  hyps=pos + [x1 * (a + b + 1) == F(p), x0 * (a + b + 1) == F(p - 1)])
        # pointwise equal terms give equal sums; constant factors come out
        z, Z = z3.Real('z'), z3.Real('Z')
        CTX.prove('terms in proportion', Z == F(p) * z, hyps=pos + [Z * (a + b + 1) == F(p), z * (a + b + 1) == 1])
        CTX.prove('sum of terms in proportion', lemmas.mksum(lambda j: F(j) * z, z3.IntVal(0), n_on + 1) == z * T)
        CTX.prove('probabilities sum to one', z * z3.Real('T') == 1, hyps=pos + [z * (a + b + 1) == 1, z3.Real('T') == a + b + 1])
    explore(path)


def psigc():
    def path():
        fext.use('inference.count._cbmlike', {'ppois': lambda i, m: SReal(PP(toint(i), toreal(m)))})
        m = loader.fresh_import('inference.count.onoff')
        n_on, n_off, t_on, t_off = data()
        c = NArr.fresh('c', (SInt(n_on + 1),))
        c0 = c.store.cur
        s = z3.Real('s')
        r = run(lambda: m.psigc(SReal(s), SReal(t_on), c))
        CTX.prove('mixture of the gamma densities with the given weights', toreal(r) == lemmas.mksum(lambda j: c0((j,)) * t_on * PP(j, s * t_on), z3.IntVal(0), n_on + 1))
        q = CTX.fresh('q', I)
        CTX.prove('weights not modified', c.store.cur((q,)) == c0((q,)))
    explore(path)


P = z3.Function('P', I, R)
LL = z3.Function('LL', R, R)
BAD = z3.Function('BAD', R, I)
MIX = z3.Function('MIX', R, R)


class Calls:
    """contracts of the compiled routines: called with the data of the object"""

    def __init__(self, d, off, cut):
        self.n_on, self.n_off, self.t_on, self.t_off = d
        self.off, self.cut = off, cut

    def same(self, n_on, t_on, n_off, t_off):
        CTX.prove('called with the data', And(toint(n_on) == self.n_on, toint(n_off) == self.n_off, toreal(t_on) == self.t_on, toreal(t_off) == self.t_off))

    def slml_offset(self, n_on, t_on, n_off, t_off):
        self.same(n_on, t_on, n_off, t_off)
        return SReal(self.off)

    def sigctp(self, n_on, t_on, n_off, t_off):
        self.same(n_on, t_on, n_off, t_off)
        return NArr.fromfn((SInt(self.n_on + 1),), lambda j: P(j[0]))

    def slmlike(self, s, n_on, t_on, n_off, t_off, offset, cut):
        self.same(n_on, t_on, n_off, t_off)
        CTX.prove('called with the offset and cutoff', And(toreal(offset) == self.off, toreal(cut) == self.cut))
        return SReal(LL(toreal(s))), SInt(CTX.fresh('nt', I)), SInt(BAD(toreal(s)))

    def psigc(self, s, t_on, c, n_on=None):
        q = CTX.fresh('q', I)
        CTX.prove('mixture evaluated with the signal count probabilities',
                  And(toreal(t_on) == self.t_on, toint(c.shape[0]) == self.n_on + 1, Implies(And(0 <= q, q <= self.n_on), c.store.cur((q,)) == P(q))))
        return SReal(MIX(toreal(s)))


def obj(cached):
    fext.use('inference.count._cbmlike')
    m = loader.fresh_import('inference.count.onoff')
    d = data()
    off, cut = z3.Real('off'), z3.Real('cut')
    calls = Calls(d, off, cut)
    for nm in ('slml_offset', 'sigctp', 'slmlike', 'psigc'):
        if not hasattr(m, nm):
            raise Unsupported('%s is gone' % nm)
        setattr(m, nm, getattr(calls, nm))
    n_on, n_off, t_on, t_off = d
    o = run(lambda: m.OnOff(SInt(n_on), SReal(t_on), SInt(n_off), SReal(t_off), cutoff=SReal(cut)))
    CTX.roots = [o]
    if cached:              # any earlier requests: some sequence has filled the cache
        run(lambda: o.pnsig())
    return m, o, n_on


def holds(o, n_on):
    """every other request gives the same answers afterwards"""
    q = CTX.fresh('q', I)
    CTX.assume(And(0 <= q, q <= n_on))
    r = run(lambda: o.pnsig())
    CTX.prove('later request of all probabilities', And(toint(r.shape[0]) == n_on + 1, r.store.cur((q,)) == P(q)))
    x = z3.Real('later')
    CTX.prove('later request of one probability', toreal(run(lambda: o.pnsig(SInt(q)))) == P(q))
    CTX.prove('later request of the density', toreal(run(lambda: o.sigmp(SReal(x)))) == MIX(x))


def scramble(r):
    """the caller overwrites what was returned"""
    j = z3.Int('wj')
    CTX.assume(And(0 <= j, j < toint(r.shape[0])))
    r[SInt(j)] = SReal(z3.Real('junk'))


def pnsig(cached, single):
    def path():
        m, o, n_on = obj(cached)
        if single:
            n = z3.Int('n')
            try:
                r = o.pnsig(SInt(n))
            except ValueError:
                CTX.prove('only counts outside 0..n_on are refused', Or(n < 0, n > n_on))
                CTX.cover('refused')
                raise PathEnd()
            except ERR as e:
                CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
                raise PathEnd()
            CTX.prove('counts outside 0..n_on are refused', And(0 <= n, n <= n_on))
            CTX.prove('the probability of n signal counts', toreal(r) == P(n))
            CTX.cover('returned')
        else:
            r = run(lambda: o.pnsig())
            q = CTX.fresh('q', I)
            CTX.prove('the probabilities of 0..n_on signal counts', And(toint(r.shape[0]) == n_on + 1, Implies(And(0 <= q, q <= n_on), r.store.cur((q,)) == P(q))))
            scramble(r)
        holds(o, n_on)
    explore(path)


class NoError:
    def __init__(self, q, good):
        self.q, self.good = q, good

    def invs(self, lid, view):
        yield 'elements so far without error', Implies(And(0 <= self.q, self.q < view.k), self.good(self.q))


def density(cached, k, which):
    """k: None for a scalar, 'r'/'i' for a float/integer array"""
    def path():
        m, o, n_on = obj(cached)
        F = MIX if which == 'sigmp' else LL
        if k is None:
            x = z3.Real('x')
            arg, n = SReal(x), None
        else:
            n = z3.Int('n')
            CTX.assume(And(n >= 0, n != 1))
            arg = NArr.fresh('x', (SInt(n),), k)
            x0 = arg.store.cur
        q = CTX.fresh('q', I)
        if k and which == 'siglml':
            CTX.loop_hints = [NoError(q, lambda j: BAD(toreal(x0((j,)))) == 0)]
        try:
            r = getattr(o, which)(arg)
        except ValueError:
            if which != 'siglml':
                CTX.prove('does not fail (ValueError)', z3.BoolVal(False))
            CTX.cover('refused')
            if k is None:
                CTX.prove('raises only when the series under- or overflowed', BAD(x) != 0)
            raise PathEnd()
        except ERR as e:
            CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            raise PathEnd()
        CTX.cover('returned')
        if k is None:
            CTX.prove('value at the signal rate', toreal(r) == F(x))
            if which == 'siglml':
                CTX.prove('under- or overflow is not passed off as a result', BAD(x) == 0)
        else:
            CTX.assume(And(0 <= q, q < n))
            CTX.prove('one value for each signal rate', toint(r.shape[0]) == n)
            CTX.prove('element by element as for scalars', r.store.cur((q,)) == F(toreal(x0((q,)))))
            if which == 'siglml':
                CTX.prove('under- or overflow of an element is not passed off as a result', BAD(toreal(x0((q,)))) == 0)
            CTX.prove('argument not modified', arg.store.cur((q,)) == x0((q,)))
            scramble(r)
        holds(o, n_on)
    explore(path)


TASKS = [('sigctp', sigctp), ('psigc', psigc)]
TASKS += [('pnsig%s%s' % (', one' if s else '', ', after other requests' if c else ''), lambda c=c, s=s: pnsig(c, s)) for c in (0, 1) for s in (0, 1)]
TASKS += [('%s of %s%s' % (w, {None: 'a number', 'r': 'an array', 'i': 'an integer array'}[k], ', after other requests' if c else ''), lambda c=c, k=k, w=w: density(c, k, w))
          for c in (0, 1) for k in (None, 'r', 'i') for w in ('sigmp', 'siglml')]
