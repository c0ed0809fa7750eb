"""C08: simulated data are local; the original data are never changed."""
import z3
from z3 import And, Or, Implies, Not, ForAll, Int
from engine import loader, shims
from engine.core import *
from engine.arr import NArr, VList, zint
from engine.lemmas import mksum
from props.pielib import *
from props.gausslib import *

LEVEL = 'proof'
FILES = ['pie/gaussian.py', 'pie/predictor.py']
FUNCTIONS = ['pie.gaussian.SampledGaussianHandler.' + f for f in ('init', 'localize_data', 'changing_data', 'sim', 'sim1', 'add_sim', 'get_prdxns', 'chisqr')] + \
    ['pie.predictor.Predictor.__get__', 'pie.predictor.PredictorHandler.__init__', 'pie.gaussian.SampledGaussian.set_data']
EXTS = ['_obsinfo']
ASSUMPTIONS = ['floats as real numbers', 'scipy.stats norm.rvs returns arbitrary numbers and has no effect on the data',
               'numpy: array() copies, indexing and slicing alias, arithmetic allocates (as modelled in engine/arr.py)',
               'the signal is an arbitrary function of parameters and location']
BOUNDED = ['vector locations: dimension 2']
RUN_S = 6
TASK_S = 90


class Draws:
    def __init__(self):
        self.log = []

    def rvs(self, n=None, **kw):
        if 'size' in kw:
            n = kw['size']
        if n is None:
            r = SReal(CTX.fresh('z', z3.RealSort()))
        else:
            r = NArr.fresh('zs', (n,), 'r')
        self.log.append(r)
        return r


def state(g, n, dim, k, local):
    """a handler in an arbitrary reachable state: working on the originals, or
    on data of its own (representation invariant proved below to be kept)"""
    l, v, s = data(n, dim, k)
    p = g.SampledGaussian(l, v, s)
    p.name = 'd'
    own = owner(dim, False)
    h = g.SampledGaussianHandler(p, own)
    if local:
        h.locns, h.vals, h.sigmas = data(n, dim, 'r', 'own_')
        h._using_globals = False
    return p, h, own, (l, v, s)


def ix(a, j):
    return [(j,)] if a.ndim == 1 else [(j, z3.IntVal(i)) for i in range(2)]


def eqat(a, f, j):
    return And(*[tor(a.zat(i)) == tor(f(i)) for i in ix(a, j)])


def sim_task(op, dim, k, local, vector=False):
    loader.fresh_import('inference.pie.gaussian')
    g = get('pie.gaussian')

    def path():
        n = integer('n')
        CTX.assume(n >= 1)
        g.stdnorm = dr = Draws()
        p, h, own, orig = state(g, n, dim, k, local)
        own.vector = vector
        of = [a.frozen() for a in orig]
        h2 = g.SampledGaussianHandler(p, owner(dim, False))       # another instance, used before
        hl, hv, hs = h.locns.frozen(), h.vals.frozen(), h.sigmas.frozen()
        t = '%s: ' % op
        j = integer('j', False)._z
        m = n
        passed = []
        i = None
        nl, ns = hl, hs
        kw = {}
        if op.startswith('sim('):
            if 'locns' in op:
                if 'sigmas' in op:
                    m = integer('m')
                    CTX.assume(m >= 1)
                a = NArr.fresh('newlocn', (m,) if dim == 1 else (m, dim), 'r')
                kw['locns'] = a
                passed.append((a, a.frozen()))
                nl = a.frozen()
            if 'sigmas' in op:
                a = NArr.fresh('newsigma', (m,), 'r')
                kw['sigmas'] = a
                passed.append((a, a.frozen()))
                ns = a.frozen()
            call = lambda: h.sim(**kw)
        elif op.startswith('add'):
            if 'arrays' in op:
                q = integer('q')
                CTX.assume(q >= 1)
                a, b = NArr.fresh('newlocn', (q,) if dim == 1 else (q, dim), 'r'), NArr.fresh('newsigma', (q,), 'r')
                kw = dict(locns=a, sigmas=b)
                passed = [(a, a.frozen()), (b, b.frozen())]
                la, sb = a.frozen(), b.frozen()
                xl, xs = lambda jj: la((jj[0] - n._z,) + tuple(jj[1:])), lambda jj: sb((jj[0] - n._z,))
                m = n + q
            else:
                x = kw['locn'] = real('newlocn') if dim == 1 else (real('newl0'), real('newl1'))
                y = kw['sigma'] = real('newsigma')
                xl = lambda jj: toreal(x) if dim == 1 else z3.If(jj[1] == 0, toreal(x[0]), toreal(x[1]))
                xs = lambda jj: toreal(y)
                m = n + 1
            nl = lambda jj: z3.If(jj[0] < n._z, tor(hl(jj)), tor(xl(jj)))
            ns = lambda jj: z3.If(jj[0] < n._z, tor(hs(jj)), tor(xs(jj)))
            call = lambda: h.add_sim(**kw)
        else:
            i = integer('i')
            CTX.assume(And(i._z >= 0, i._z < n._z))
            x = y = None
            if 'locn' in op:
                x = kw['locn'] = real('newlocn') if dim == 1 else (real('newl0'), real('newl1'))
            if 'sigma' in op:
                y = kw['sigma'] = real('newsigma')

            def nl(jj, old=hl):
                if x is None:
                    return tor(old(jj))
                xz = toreal(x) if dim == 1 else z3.If(jj[1] == 0, toreal(x[0]), toreal(x[1]))
                return z3.If(jj[0] == i._z, xz, tor(old(jj)))

            def ns(jj, old=hs):
                return tor(old(jj)) if y is None else z3.If(jj[0] == i._z, toreal(y), tor(old(jj)))
            call = lambda: h.sim1(i, **kw)
        try:
            call()
        except (ValueError, TypeError, IndexError, AttributeError) as e:
            CTX.prove(t + 'simulation succeeds', z3.BoolVal(False))
            return
        inr = And(j >= 0, j < m._z)
        # frame: originals, caller's arrays, other instance
        for nm, a, f in zip(('locations', 'values', 'sigmas'), orig, of):
            CTX.prove(t + 'original %s unchanged' % nm, Implies(And(j >= 0, j < n._z), eqat(a, f, j)))
        CTX.prove(t + 'the predictor keeps its originals', z3.BoolVal(p._locns is orig[0] and p._vals is orig[1] and p._sigmas is orig[2]))
        for a, f in passed:
            CTX.prove(t + "caller's array unchanged", Implies(And(j >= 0, j < zint(a.shp[0])), eqat(a, f, j)))
        for nm, a, f in zip(('locations', 'values', 'sigmas'), (h2.locns, h2.vals, h2.sigmas), of):
            CTX.prove(t + 'other instance sees the original %s' % nm, Implies(And(j >= 0, j < n._z), eqat(a, f, j)))
        h3 = g.SampledGaussianHandler(p, owner(dim, False))       # instance created afterwards
        for nm, a, f in zip(('locations', 'values', 'sigmas'), (h3.locns, h3.vals, h3.sigmas), of):
            CTX.prove(t + 'later instance sees the original %s' % nm, Implies(And(j >= 0, j < n._z), eqat(a, f, j)))
        # representation invariant: own storage
        foreign = [a.store for a in orig] + [a.store for a, _ in passed]
        CTX.prove(t + 'simulated data are stored apart from the originals',
                  z3.BoolVal(not any(x.store is q for x in (h.locns, h.vals, h.sigmas) for q in foreign) and
                             len({id(x.store) for x in (h.locns, h.vals, h.sigmas)}) == 3))
        CTX.prove(t + 'simulated data can hold any real value', z3.BoolVal(all(x.store.k == 'r' for x in (h.locns, h.vals, h.sigmas))))
        CTX.prove(t + 'number of data', toint(h.ndata) == m._z)
        # functional part
        CTX.prove(t + 'locations used', Implies(inr, eqat(h.locns, nl, j)))
        CTX.prove(t + 'sigmas used', Implies(inr, eqat(h.sigmas, ns, j)))
        if op.startswith('add'):
            ok = len(dr.log) == 1 and (isinstance(dr.log[0], NArr) or 'arrays' not in op)
            CTX.prove(t + 'deviates drawn once', z3.BoolVal(ok))
            if ok:
                z = dr.log[0]
                if isinstance(z, NArr):
                    CTX.prove(t + 'as many deviates as new data', toint(z.shp[0]) == m._z - n._z)
                d = lambda q: z.zat((q - n._z,)) if isinstance(z, NArr) else toreal(z)
                CTX.prove(t + 'as many values as data', toint(h.vals.shape[0]) == m._z)
                CTX.prove(t + 'the old data are kept', Implies(And(j >= 0, j < n._z), h.vals.zat((j,)) == tor(hv((j,)))))
                CTX.prove(t + 'new value = prediction + sigma*deviate',
                          Implies(And(j >= n._z, j < m._z), h.vals.zat((j,)) == own.z(locn(nl, j, dim)) + tor(ns((j,))) * d(j)))
        elif i is None:
            CTX.prove(t + 'one deviate drawn per datum', z3.BoolVal(len(dr.log) == 1 and isinstance(dr.log[0], NArr)))
            if len(dr.log) == 1 and isinstance(dr.log[0], NArr):
                z = dr.log[0]
                CTX.prove(t + 'as many deviates as data', toint(z.shp[0]) == m._z)
                val = lambda q: own.z(locn(nl, q, dim)) + tor(ns((q,))) * z.zat((q,))
                CTX.prove(t + 'simulated value = prediction + sigma*deviate', Implies(inr, h.vals.zat((j,)) == val(j)))
        else:
            CTX.prove(t + 'one deviate drawn', z3.BoolVal(len(dr.log) == 1 and isinstance(dr.log[0], SReal)))
            if len(dr.log) == 1 and isinstance(dr.log[0], SReal):
                val = lambda q: z3.If(q == i._z, own.z(locn(nl, q, dim)) + tor(ns((q,))) * toreal(dr.log[0]), tor(hv((q,))))
                CTX.prove(t + 'exactly the chosen datum is replaced', Implies(inr, h.vals.zat((j,)) == val(j)))
        CTX.prove(t + 'on_use precedes the signal', z3.BoolVal(own.bad == 0))
        CTX.cover('done')
    explore(path)


def refused(which):
    loader.fresh_import('inference.pie.gaussian')
    g = get('pie.gaussian')

    def path():
        n, m, m2 = integer('n'), integer('m'), integer('m2')
        CTX.assume(And(n._z >= 1, m._z >= 1, m2._z >= 1))
        g.stdnorm = Draws()
        p, h, own, orig = state(g, n, 1, 'r', False)
        of = [a.frozen() for a in orig]
        j = integer('j', False)._z
        kw = dict(locns=NArr.fresh('a', (m,)), sigmas=NArr.fresh('b', (m2,)))
        if which in ('both', 'added'):
            CTX.assume(m._z != m2._z)
        else:
            kw = {which: NArr.fresh('a', (m,))}
            CTX.assume(m._z != n._z)
        try:
            h.add_sim(**kw) if which == 'added' else h.sim(**kw)
            CTX.prove('arrays of the wrong length are refused', z3.BoolVal(False))
        except ValueError:
            CTX.prove('arrays of the wrong length are refused', z3.BoolVal(True))
        for a, f in zip(orig, of):
            CTX.prove('originals unchanged by a refused simulation', Implies(And(j >= 0, j < n._z), eqat(a, f, j)))
        CTX.cover('done')
    explore(path)


def access():
    """one handler per instance, installed once"""
    loader.fresh_import('inference.pie.gaussian')
    g = get('pie.gaussian')

    def path():
        n = integer('n')
        CTX.assume(n >= 1)
        l, v, s = data(n)
        p = g.SampledGaussian(l, v, s)

        class Inst:
            pass
        p._report_name(Inst, 'd')
        q = g.SampledGaussian(*data(n, pre='q'))
        q._report_name(Inst, 'e')
        a, b = Inst(), Inst()
        h1, k1, h2 = p.__get__(a, Inst), q.__get__(a, Inst), p.__get__(b, Inst)
        CTX.prove('every instance has its own handler, always the same one',
                  z3.BoolVal(h1 is p.__get__(a, Inst) and h2 is p.__get__(b, Inst) and h1 is not h2 and k1 is not h1 and k1 is q.__get__(a, Inst)))
        CTX.prove('handlers start from the original data of their predictor',
                  z3.BoolVal(all(x.vals is v and x.locns is l and x.sigmas is s and x.owner is o for x, o in ((h1, a), (h2, b)))))
        CTX.prove('predictor names collected in order', z3.BoolVal(list(Inst.predictor_names) == ['d', 'e']))
        CTX.cover('done')
    explore(path)


OPS = ('sim()', 'sim(locns)', 'sim(sigmas)', 'sim(locns,sigmas)', 'sim1', 'sim1 locn', 'sim1 sigma', 'sim1 locn sigma', 'add one', 'add arrays')
TASKS = [('%s, dim %d, %s data, %s' % (op, d, {'r': 'float', 'i': 'integer'}[k], 'own data' if loc else 'originals'),
          lambda op=op, d=d, k=k, loc=loc: sim_task(op, d, k, loc))
         for op in OPS for d, k, loc in ((1, 'r', False), (1, 'r', True), (1, 'i', False), (2, 'r', False), (2, 'r', True))]
TASKS += [('%s with signals()' % op, lambda op=op: sim_task(op, 1, 'r', False, True)) for op in ('sim()', 'sim(locns)', 'sim1 locn', 'add one', 'add arrays')]
TASKS += [('refused: ' + w, lambda w=w: refused(w)) for w in ('both', 'locns', 'sigmas', 'added')] + [('access', access)]
