"""C20 observed information matrix (deriv.obsinfo / Fortran ninfol, rid_ex)."""
import z3
from z3 import And, Or, Implies, Not, If
from engine import loader, fext
from engine.core import *
from engine.arr import NArr, zint
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'proof'
FILES = ['deriv/obsinfo.py', 'deriv/_obsinfo.f']
FUNCTIONS = ['deriv.obsinfo.obsinfo', 'deriv._obsinfo.ninfol', 'deriv._obsinfo.rid_ex']
EXTS = ['_obsinfo']
RUN_S = 6
TASK_S = 200
ASSUMPTIONS = ['real arithmetic for floating point', 'the quadratic has positive second derivatives at the mode in each parameter (its diagonal), and maxll, when given, is its value there']
ERR = (IndexError, TypeError, ValueError, AttributeError, NameError, ZeroDivisionError, KeyError, RuntimeError)

U = z3.Function('Hu', I, I, R)


def H(i, j):
    """any symmetric matrix with positive diagonal"""
    u = U(If(i <= j, i, j), If(i <= j, j, i))
    return If(i == j, If(u > 0, u, z3.RealVal(1)), u)


def diag(d, h):
    return h * d * d


class Density:
    """The user's log density, known to the proof where at most two parameters
    are displaced from the mode; asking anywhere else fails an obligation."""

    def __init__(self, mode, value):
        self.mode, self.value = mode, value

    def __call__(self, x):
        cells = []
        for e in reversed(x.store.hist):
            ix = z3.simplify(e[0])
            if not any(ix.eq(c) for c in cells):
                cells.append(ix)
        q = CTX.fresh('q', I)
        cur = x.store.cur
        for m in (0, 1, 2):
            if m > len(cells):
                break
            c = cells[:m]
            goal = Or(cur((q,)) == self.mode((q,)), *[q == a for a in c])
            if m == min(2, len(cells)) or CTX.valid(goal, ms=2000).status == 'discharged':
                CTX.prove('evaluated with at most two parameters away from the mode', goal)
                return SReal(self.value(*[(a, cur((a,)) - self.mode((a,))) for a in c]))
        raise Unsupported('evaluation point')


def quadratic(fmax):
    """fmax - 1/2 d.H.d where only the given components of d are not zero"""
    def f(*d):
        if not d:
            return fmax
        if len(d) == 1:
            (i, x), = d
            return fmax - H(i, i) * x * x / 2
        (i, x), (j, y) = d
        return fmax - If(i == j, H(i, i) * x * x / 2, (H(i, i) * x * x + 2 * H(i, j) * x * y + H(j, j) * y * y) / 2)
    return f


class Content:
    """what the loops of ninfol have put into the matrices after k iterations"""

    def __init__(self, n, value):
        self.n, self.value = n, value

    def content(self, lid, view):
        n = self.n
        inr = lambda j: And(j[0] >= 0, j[1] >= 0, j[0] < n, j[1] < n)
        shapes = {'L1': lambda k, j: And(inr(j), j[0] == j[1], j[0] < k), 'L3': lambda k, j: And(inr(j), j[0] != j[1], Or(j[0] < k, j[1] < k))}
        i = view.env0.get('i')
        if isinstance(i, SInt):
            i = i._z - 1
            shapes['L4'] = lambda k, j: And(inr(j), Or(And(j[0] == i, i < j[1], j[1] <= i + k), And(j[1] == i, i < j[0], j[0] <= i + k)))
        sh = shapes.get(lid.split(':')[-1])
        if sh:
            yield {'info': (sh, lambda j: self.value(*j)), 'ierr': (sh, lambda j: z3.RealVal(0))}


def run(f):
    try:
        r = f()
    except ERR as e:
        CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
        raise PathEnd()
    CTX.cover('returned')
    return r


def rid_ex(h, rat, y, n, result, err, a):
    """contract (task "extrapolation of equal differences")"""
    n = toint(n)
    j = CTX.fresh('j', I)
    c = y.store.cur((n - 1,))
    CTX.prove('extrapolation: at least two differences', n >= 2)
    CTX.prove('extrapolation: step ratio between 0 and 1', And(toreal(rat) > 0, toreal(rat) < 1))
    CTX.prove('extrapolation: all differences equal', Implies(And(0 <= j, j < n), y.store.cur((j,)) == c))
    for x in (a,):
        x.store.havoc('work')
    CTX.contracts.add('deriv._obsinfo.rid_ex')
    return SReal(c), SReal(z3.RealVal(0))


def setup(extra=None):
    fext.use('inference.deriv._obsinfo', extra)
    return loader.fresh_import('inference.deriv.obsinfo')


def inputs(n):
    mle = NArr.fresh('mle', (SInt(n),))
    du = z3.Function('du', I, R)
    dl = NArr.fromfn((SInt(n),), lambda j: If(du(j[0]) != 0, du(j[0]), z3.RealVal(1)))
    return mle, dl


def quad(niter, given):
    def path():
        m = setup({'rid_ex': rid_ex} if niter else None)
        n = z3.Int('n')
        CTX.assume(n >= 1)
        mle, dl = inputs(n)
        m0, d0 = mle.store.cur, dl.store.cur
        fmax = z3.Real('fmax')
        CTX.loop_hints = [Content(n, H)]
        F = Density(m0, quadratic(fmax))
        info, err = run(lambda: m.obsinfo(F, mle, dl, niter=niter, **({'maxll': SReal(fmax)} if given else {})))
        p, q = CTX.fresh('p', I), CTX.fresh('q', I)
        CTX.assume(And(0 <= p, p < n, 0 <= q, q < n))
        CTX.prove('the information matrix is the matrix of second derivatives', info.store.cur((p, q)) == H(p, q))
        CTX.prove('the estimated errors vanish', err.store.cur((p, q)) == 0)
        CTX.prove('mode not modified', mle.store.cur((p,)) == m0((p,)))
        CTX.prove('steps not modified', dl.store.cur((p,)) == d0((p,)))
    explore(path)


def extrapolate():
    def path():
        ns = fext.namespace('deriv/_obsinfo.f')
        if 'rid_ex' not in ns:
            raise Unsupported('rid_ex is gone')
        n, c, h, rat = z3.Int('n'), z3.Real('c'), z3.Real('h'), z3.Real('rat')
        CTX.assume(And(n >= 2, rat > 0, rat < 1))
        CTX.peel = True
        y = NArr.fromfn((SInt(n),), lambda j: c)
        a = NArr.fresh('a', (SInt(n), SInt(n)))
        r, e = run(lambda: ns['rid_ex'](SReal(h), SReal(rat), y, SInt(n), SReal(z3.Real('r0')), SReal(z3.Real('e0')), a))
        CTX.prove('equal differences extrapolate to themselves', toreal(r) == c)
        CTX.prove('without error', toreal(e) == 0)
        j = CTX.fresh('j', I)
        CTX.prove('differences not modified', y.store.cur((j,)) == c)
    explore(path)


def leading():
    def path():
        ns = fext.namespace('deriv/_obsinfo.f')
        if 'rid_ex' not in ns:
            raise Unsupported('rid_ex is gone')
        A, B, h, rat = z3.Reals('A B h rat')
        CTX.assume(And(rat > 0, rat < 1))
        y = NArr.fromfn((2,), lambda j: If(j[0] == 1, A + B * h * h, A + B * (rat * h) * (rat * h)))
        a = NArr.fresh('a', (2, 2))
        r, e = run(lambda: ns['rid_ex'](SReal(h), SReal(rat), y, 2, SReal(z3.Real('r0')), SReal(z3.Real('e0')), a))
        # (the error estimate of differences that nowhere near agree, above 1e30, is not within the contract)
        CTX.prove('one step removes an error proportional to the square of the step', toreal(r) == A, hyps=[And(B * h * h <= 10 ** 20, -B * h * h <= 10 ** 20, rat < z3.RealVal('0.99'))])
    explore(path)


def anyrid(h, rat, y, n, result, err, a):
    """whatever extrapolation returns"""
    return SReal(CTX.fresh('extrap', R)), SReal(CTX.fresh('err', R))


def anyF(x):
    """a log density about which nothing is known"""
    return SReal(CTX.fresh('F', R))


def symmetric(n, niter):
    def path():
        m = setup({'rid_ex': anyrid} if niter else None)
        mle, dl = inputs(z3.IntVal(n))
        m0, d0 = mle.store.cur, dl.store.cur
        CTX.memo_ext = True
        try:
            info, err = m.obsinfo(anyF, mle, dl, niter=niter)
        except (ValueError, ZeroDivisionError):
            raise PathEnd()             # not a maximum: a diagonal element is not positive
        CTX.cover('returned')
        for p in range(n):
            for q in range(p):
                for x, nm in ((info, 'information matrix'), (err, 'error matrix')):
                    CTX.prove('the %s is symmetric' % nm, x.store.cur((z3.IntVal(p), z3.IntVal(q))) == x.store.cur((z3.IntVal(q), z3.IntVal(p))))
        j = CTX.fresh('j', I)
        CTX.prove('mode not modified', mle.store.cur((j,)) == m0((j,)))
        CTX.prove('steps not modified', dl.store.cur((j,)) == d0((j,)))
    explore(path)


class Boom(Exception):
    pass


def raising(n):
    def path():
        m = setup({'rid_ex': anyrid})
        mle, dl = inputs(z3.IntVal(n))
        m0, d0 = mle.store.cur, dl.store.cur

        def F(x):
            if CTX.choose(2):
                raise Boom()
            return anyF(x)
        try:
            m.obsinfo(F, mle, dl, niter=1)
        except Boom:
            CTX.cover('raised')
        except (ValueError, ZeroDivisionError):
            pass
        j = CTX.fresh('j', I)
        CTX.prove('mode not modified when the density raises', mle.store.cur((j,)) == m0((j,)))
        CTX.prove('steps not modified when the density raises', dl.store.cur((j,)) == d0((j,)))
    explore(path)


BOUNDED = ['extrapolation steps of the matrix for quadratics: 0, 1 and 2 (any dimension, form, mode and steps)', 'symmetry for arbitrary densities, and densities that raise: dimensions 2 and 3']
TASKS = [('quadratic, niter=%d%s' % (k, '' if g else ', maxll not given'), lambda k=k, g=g: quad(k, g)) for k in (0, 1, 2) for g in (1, 0) if g or k == 0]
TASKS += [('extrapolation of equal differences', extrapolate)]
TASKS += [('extrapolation, one step', leading)]
TASKS += [('symmetric, n=%d, niter=%d' % (n, k), lambda n=n, k=k: symmetric(n, k)) for n, k in ((2, 0), (2, 2), (3, 1))]
TASKS += [('density raises', lambda: raising(2))]
