"""C19 step scales (deriv.dllsteps / Fortran pk_scales)."""
import z3
from z3 import And, Or, Implies, Not, If
from engine import loader, fext
from engine.core import *
from engine.arr import NArr, zint
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'proof'
FILES = ['deriv/obsinfo.py', 'deriv/_obsinfo.f']
FUNCTIONS = ['deriv.obsinfo.dllsteps', 'deriv._obsinfo.pk_scales']
EXTS = ['_obsinfo']
RUN_S = 6
TASK_S = 120
ERR = (IndexError, TypeError, AttributeError, NameError, KeyError)
ASSUMPTIONS = ['real arithmetic for floating point: paths on which the Fortran code divides by zero or takes the root of a negative number (IEEE infinities and NaN) are not covered by the proof; the run-time check covers them',
               'partial correctness: termination of the search for a drop (it goes on for ever on a flat density) is not claimed']

G = z3.Function('G', I, R, R)        # log density with parameter i at v, the others at the mode


class Density:
    """The user's log density, known to the proof where at most one parameter
    is displaced from the mode; asking anywhere else fails an obligation."""

    def __init__(self, mode, fmode, fault=False):
        self.mode, self.fmode, self.fault = mode, fmode, fault

    def __call__(self, x):
        if self.fault and CTX.choose(2):
            raise Boom()
        cells = []
        for e in reversed(x.store.hist):
            ix = z3.simplify(e[0])
            if not any(ix.eq(c) for c in cells):
                cells.append(ix)
        q = CTX.fresh('q', I)
        cur = x.store.cur
        c = cells[:1]
        CTX.prove('evaluated with the other parameters at the mode', Or(cur((q,)) == self.mode((q,)), *[q == a for a in c]))
        if not c:
            return SReal(self.fmode)
        return SReal(G(c[0], cur((c[0],))))


class Boom(Exception):
    pass


class Inv:
    def __init__(self, good, guess, p):
        self.good, self.guess, self.p = good, guess, p

    def invs(self, lid, view):
        dx = view.env.get('dx')
        if lid.endswith(':L1') and isinstance(dx, NArr):
            c = dx.store.cur((self.p,))
            yield 'found', Implies(self.p < view.k, self.good(c))
            yield 'not yet', Implies(self.p >= view.k, c == self.guess((self.p,)))


def scales(maxll, fault=False):
    def path():
        fext.use('inference.deriv._obsinfo')
        m = loader.fresh_import('inference.deriv.obsinfo')
        n = z3.Int('n')
        CTX.assume(n >= 1)
        mle, guess = NArr.fresh('mle', (SInt(n),)), NArr.fresh('guess', (SInt(n),))
        m0, g0 = mle.store.cur, guess.store.cur
        dll, tol, fmax, fmode = z3.Reals('dll tol fmax fmode')
        mi = z3.Int('maxiter')
        CTX.assume(dll > 0)
        p = CTX.fresh('p', I)
        CTX.assume(And(0 <= p, p < n))
        top = fmax if maxll else fmode
        drop = lambda d: top - G(p, m0((p,)) + d)
        good = lambda d: And(drop(d) - dll <= tol, dll - drop(d) <= tol, drop(d) >= 0)
        CTX.loop_hints = [Inv(good, g0, p)]
        F = Density(m0, fmode, fault)
        kw = dict(maxll=SReal(fmax)) if maxll else {}
        d = None
        try:
            d = m.dllsteps(F, mle, guess, dll=SReal(dll), maxiter=SInt(mi), tol=SReal(tol), **kw)
        except (ValueError, RuntimeError, ZeroDivisionError, Boom) as e:
            CTX.cover('raised %s' % type(e).__name__)
        except ERR as e:
            CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            raise PathEnd()
        if d is not None:
            CTX.cover('returned')
            CTX.prove('one step per parameter', zint(d.shape[0]) == n)
            CTX.prove('the step changes the log density by the requested amount', good(d.store.cur((p,))))
            CTX.prove('the result is a new array', z3.BoolVal(d.store is not guess.store and d.store is not mle.store))
        CTX.prove('mode not modified', mle.store.cur((p,)) == m0((p,)))
        CTX.prove('starting steps not modified', guess.store.cur((p,)) == g0((p,)))
    explore(path)


TASKS = [('steps, maxll %s' % ('given' if g else 'evaluated'), lambda g=g: scales(g)) for g in (1, 0)]
TASKS += [('density raises', lambda: scales(1, True))]
