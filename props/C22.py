"""C22 adaptive integration (integrate.adapt, integrate.adapt_vec; Fortran input check dchhre)."""
import types
import z3
from z3 import And, Or, Implies, Not
from engine import loader, fext
from engine.core import *
from engine.arr import NArr, zint
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'proof'
FILES = ['integrate/adapt.py', 'integrate/adapt_vec.py', 'integrate/dchhre.f']
FUNCTIONS = ['integrate.adapt.adapt', 'integrate.adapt.adapt_sizes', 'integrate.adapt_vec.adapt_vec', 'integrate.dchhre']
EXTS = ['_adapt', '_dcuhre']
RUN_S = 7
TASK_S = 120
ERR = (IndexError, TypeError, AttributeError, NameError, KeyError, ZeroDivisionError)
ASSUMPTIONS = ['the Fortran routines ADAPT and DCUHRE report failure through ifail as they document (their own estimates are external numerical code, exercised by the run-time check only); dchhre, the argument check of DCUHRE, is verified',
               'f2py passes arguments by name and order of the .pyf signature; integral floats count as integers',
               'maxfac and wrkfac are integers, wrkfac at least one']

val = z3.Function('integrand', R, R)


def same(a, b, n):
    """array argument a holds the n numbers of b"""
    if isinstance(a, NArr):
        CTX.prove('as many limits as given', zint(a.shape[0]) == n)
        q = CTX.fresh('q', I)
        CTX.assume(And(0 <= q, q < n))
        return toreal(a[SInt(q)]) == b((q,))
    return And(*[toreal(a[i]) == b((zint(i),)) for i in range(n)])


def scalar(n):
    def path():
        got = []
        npts, ifail = z3.Ints('npts ifail')
        err, res = z3.Reals('err result')

        def stub(a, b, minpts, maxpts, functn, eps, lenwrk, *rest):
            if rest:
                raise Unsupported('optional arguments of the routine')
            got.append(1)
            CTX.prove('lower limits passed', same(a, lo0, n))
            CTX.prove('upper limits passed', same(b, hi0, n))
            CTX.prove('tolerance passed', toreal(eps) == acc)
            CTX.prove('budget is maxfac times the size of the rule', toreal(maxpts) == toreal(SInt(mf)) * rule)
            CTX.prove('minimum number of points admissible', And(toreal(minpts) >= 0, Implies(mf >= 1, toreal(minpts) <= toreal(maxpts))))
            CTX.prove('workspace as large as required', Implies(And(mf >= 0, wf >= 1), 2 * toreal(lenwrk) >= (2 * n + 3) * (1 + z3.ToReal(mf))))
            x = CTX.fresh('x', R)
            CTX.prove('integrand passed', toreal(functn(SReal(x))) == val(x))
            return SInt(npts), SReal(err), SReal(res), SInt(ifail)
        mod = types.ModuleType('inference.integrate._adapt')
        mod.adapt = stub
        loader.EXT['inference.integrate._adapt'] = lambda: mod
        m = loader.fresh_import('inference.integrate.adapt')
        lo, hi = NArr.fresh('lower', (n,)), NArr.fresh('upper', (n,))
        lo0, hi0 = lo.store.cur, hi.store.cur
        acc = z3.Real('relacc')
        mf, wf = z3.Ints('maxfac wrkfac')
        rule = 2 ** n + 2 * n * n + 6 * n + 1
        r = None
        dflt = CTX.choose(2)
        try:
            if dflt:
                CTX.assume(And(mf == 100, wf == 1))
                r = m.adapt(lambda x: SReal(val(toreal(x))), lo, hi, SReal(acc))
            else:
                r = m.adapt(lambda x: SReal(val(toreal(x))), lo, hi, SReal(acc), maxfac=SInt(mf), wrkfac=SInt(wf))
        except (ValueError, RuntimeError):
            if got:
                CTX.prove('success reported is not refused', ifail != 0)
            CTX.cover('raised')
            return
        except ERR as e:
            CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            raise PathEnd()
        CTX.cover('returned')
        CTX.prove('the routine was called once', z3.BoolVal(len(got) == 1))
        CTX.prove('nothing is returned unless the routine reports success', ifail == 0)
        if not isinstance(r, tuple) or len(r) != 3:
            CTX.prove('three results', z3.BoolVal(False))
        else:
            CTX.prove('integral, error and number of points of the routine', And(toreal(r[0]) == res, toreal(r[1]) == err, toreal(r[2]) == z3.ToReal(npts)))
    explore(path)


def sizes(n):
    def path():
        mod = types.ModuleType('inference.integrate._adapt')
        loader.EXT['inference.integrate._adapt'] = lambda: mod
        m = loader.fresh_import('inference.integrate.adapt')
        if not hasattr(m, 'adapt_sizes'):
            raise Unsupported('adapt_sizes')
        mf = z3.Int('maxfac')
        CTX.assume(mf >= 1)
        a, b, c = m.adapt_sizes(n, SInt(mf))
        rule = 2 ** n + 2 * n * n + 6 * n + 1
        CTX.prove('sizes', And(toreal(a) >= 0, toreal(a) <= toreal(b), toreal(b) == rule * z3.ToReal(mf), 2 * toreal(c) >= (2 * n + 3) * (1 + z3.ToReal(mf))))
    explore(path)


def vector(n, key0):
    def path():
        got = []
        neval, ifail = z3.Ints('neval ifail')
        nf, mn, mx = z3.Ints('nfuncs minpts maxpts')
        rel, ab = z3.Reals('releps abseps')
        out = NArr.fresh('res', (SInt(nf),)), NArr.fresh('abserr', (SInt(nf),))
        vf = object()

        def stub(numfun, a, b, minpts, maxpts, funsub, epsabs, epsrel, key=None, restar=None, result=None, work=None, *rest, **kw):
            if rest or kw:
                raise Unsupported('optional arguments of the routine')
            got.append(1)
            CTX.prove('lower limits passed', same(a, lo0, n))
            CTX.prove('upper limits passed', same(b, hi0, n))
            CTX.prove('number of functions, tolerances, budget and key passed',
                      And(toint(numfun) == nf, toreal(epsabs) == ab, toreal(epsrel) == rel, toint(minpts) == mn, toint(maxpts) == mx, toint(key) == key0))
            CTX.prove('integrand passed', z3.BoolVal(funsub is vf))
            CTX.prove('fresh calculation', toint(restar) == 0)
            CTX.prove('room for the results', toint(result.shape[0]) == nf)
            if CTX.choose(2):
                # the routine's own argument check (for a region of non-zero volume)
                f = fext.namespace('integrate/dchhre.f')['dchhre']
                fail = f(15, n, numfun, 1, [0.] * n, [1.] * n, minpts, maxpts, SReal(ab), SReal(rel), key, work.shape[0], restar, 0, 0, 0, 0, 0, 0)[4]
                CTX.prove('workspace as large as required', toint(fail) != 11)
                raise PathEnd()
            return out[0], out[1], SInt(neval), SInt(ifail)
        mod = types.ModuleType('inference.integrate._dcuhre')
        mod.dcuhre = stub
        loader.EXT['inference.integrate._dcuhre'] = lambda: mod
        m = loader.fresh_import('inference.integrate.adapt_vec')
        CTX.assume(nf >= 0)
        lo, hi = NArr.fresh('lower', (n,)), NArr.fresh('upper', (n,))
        lo0, hi0 = lo.store.cur, hi.store.cur
        r = None
        try:
            if CTX.choose(2):
                CTX.assume(And(ab == 0, mn == 0, mx == 100000))
                r = m.adapt_vec(SInt(nf), vf, lo, hi, SReal(rel), key=key0)
            else:
                r = m.adapt_vec(SInt(nf), vf, lo, hi, SReal(rel), SReal(ab), key0, SInt(mn), SInt(mx))
        except (ValueError, RuntimeError):
            if got:
                CTX.prove('success reported is not refused', ifail != 0)
            elif 2 <= n <= 15 and legal(key0, n):
                rule = num(key0, n)
                CTX.prove('an admissible request reaches the routine', Not(And(nf >= 1, mx >= 3 * rule)))
            CTX.cover('raised')
            return
        except ERR as e:
            CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            raise PathEnd()
        CTX.cover('returned')
        CTX.prove('the routine was called once', z3.BoolVal(len(got) == 1))
        CTX.prove('nothing is returned unless the routine reports success', ifail == 0)
        if not isinstance(r, tuple) or len(r) != 3:
            CTX.prove('three results', z3.BoolVal(False))
        else:
            q = CTX.fresh('q', I)
            CTX.assume(And(0 <= q, q < nf))
            CTX.prove('integrals of the routine', toreal(r[0][SInt(q)]) == out[0].store.cur((q,)))
            CTX.prove('errors of the routine', toreal(r[1][SInt(q)]) == out[1].store.cur((q,)))
            CTX.prove('number of points of the routine', toreal(r[2]) == z3.ToReal(neval))
    explore(path)


def legal(key, n):
    return key in (0, 3, 4) or key == 1 and n == 2 or key == 2 and n == 3


def num(key, n):
    if key in (0, 1) and n == 2:
        return 65
    if key in (0, 2) and n == 3:
        return 127
    if key == 4:
        return 1 + 6 * n + 2 * n * (n - 1) + 2 ** n
    return 1 + 8 * n + 2 * n * (n - 1) + 4 * n * (n - 1) + 4 * n * (n - 1) * (n - 2) // 3 + 2 ** n


def each(ns, f):
    def run():
        for n in ns:
            f(n)
    return run


TASKS = [('adapt, %d to %d dimensions' % (a, b), each(range(a, b + 1), scalar)) for a, b in ((1, 5), (6, 10), (11, 15), (16, 21))]
TASKS += [('sizes', each(range(2, 21), sizes))]
TASKS += [('adapt_vec, key %d' % k, each(range(1, 17), lambda n, k=k: vector(n, k))) for k in (0, 1, 2, 3, 4, 5)]
TASKS += [('adapt_vec, key -1', each(range(1, 17), lambda n: vector(n, -1)))]
