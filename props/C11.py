"""C11: optimize / fit.  Any number of varying parameters; the minimiser through
its contract (C10), parameters through theirs (C02, C03), the score as an
arbitrary pure function of all parameter values; _score and _set_varying are
executed from the source."""
import z3
from z3 import And, Or, Implies, Not, ForAll, Int, Function, IntSort, RealSort
from engine import loader
from engine.core import *
from engine.arr import NArr, zint
from engine.heap import Heap, IdList, Inverter, HObj
from engine.lemmas import FA
from props.pielib import *

LEVEL = 'proof'
FILES = ['pie/inference_base.py', 'utils/nrmin.py', 'pie/realparam.py']
FUNCTIONS = ['pie.inference_base.Inference.optimize', 'pie.inference_base.Inference.fit', 'pie.inference_base.Inference._score',
             'pie.inference_base.Inference._set_varying']
EXTS = ['_obsinfo']
ASSUMPTIONS = ['floats as real numbers', 'the score is a pure function of the parameter values',
               'starting values strictly inside the range when bounds are mapped',
               'contracts used: powell (proved in C10), set_value (C02), unbounded coordinate (C03: mutually inverse, values inside the range)']
RUN_S = 8
TASK_S = 90
UG = Function('UGET', IntSort(), RealSort(), RealSort())
US = Function('USET', IntSort(), RealSort(), RealSort())


class VRef(HObj):
    def get_value(self):
        return self.value

    def set_value(self, v):
        CTX.contracts.add('RealParamHandler.set_value')
        v = SReal(toreal(v))
        if CTX.branch(And(self.bounded._z != 0, Or(v._z < self.lo._z, v._z > self.hi._z))):
            raise get('pie.param').ParamRangeError('range')
        self.value = v

    def _unbounded_get_value(self):
        CTX.contracts.add('RealParamHandler._unbounded_get_value')
        v = self.value._z
        CTX.prove('the unbounded coordinate is read only inside the range', And(self.lo._z <= v, v <= self.hi._z))
        return SReal(UG(self._id, v))

    def _unbounded_set_value(self, u):
        CTX.contracts.add('RealParamHandler._unbounded_set_value')
        self.value = SReal(US(self._id, toreal(u)))


def lam(fn):
    x = Int('x#st')
    return z3.Lambda([x], fn(x))


def task(fn, drxn, unb):
    loader.fresh_import('inference.pie.inference_base')
    ib, nm, pm = get('pie.inference_base'), get('utils.nrmin'), get('pie.param')

    def path():
        heap = Heap(value='r', delta='r', lo='r', hi='r', bounded='i')
        n = CTX.fresh('n_varying', z3.IntSort())
        lst = IdList.make(heap, 'varying', n, VRef)
        for a in lst.axioms:
            CTX.assume(a)
        CTX.assume(n >= 1)
        x, u = Int('x!'), z3.Real('u!')
        f, pos = lst.sym_f, lst.sym_p
        isin = lambda z: And(pos(z) >= 0, pos(z) < n, f(pos(z)) == z)
        o = heap.old
        if unb:
            # contract of the unbounded coordinate (C03) and precondition
            CTX.assume(ForAll([x], And(o('bounded', x) != 0, o('lo', x) < o('value', x), o('value', x) < o('hi', x)), patterns=[o('value', x)]))
            CTX.assume(ForAll([x], US(x, UG(x, o('value', x))) == o('value', x), patterns=[UG(x, o('value', x))]))
            CTX.assume(ForAll([x, u], And(o('lo', x) <= US(x, u), US(x, u) <= o('hi', x)), patterns=[US(x, u)]))
        else:
            CTX.assume(ForAll([x], Implies(o('bounded', x) != 0, And(o('lo', x) <= o('value', x), o('value', x) <= o('hi', x))),
                              patterns=[o('value', x)]))
        inf = object.__new__(ib.Inference)
        inf.varying_params = lst
        inf.stepping_params = []
        inf.fixed_params = []
        inf.use_unbounded = unb
        inf.extremize = drxn
        inf.min_method, inf.min_tol = 'powell', real('min_tol')
        sgn = -1 if drxn == ib.maximize else 1
        inf.score = lambda: SReal(FA(lam(lambda z: heap.at('value', z))))
        start = FA(lam(lambda z: o('value', z)))

        def G(af):
            """what _score returns for a vector (contract, C07)"""
            cur = heap.value.cur
            return sgn * FA(lam(lambda z: z3.If(isin(z), US(z, af((pos(z),))) if unb else af((pos(z),)), cur((z,)))))

        def evaluated(tag):
            """the function was called at unknown points: varying parameters hold unknown (allowed) values"""
            h = CTX.fresh_fn('left_' + tag, IntSort(), RealSort())
            old = heap.value.cur
            heap.value.cur = lambda j: z3.If(isin(j[0]), h(j[0]), old(j))
            CTX.assume(ForAll([x], Implies(o('bounded', x) != 0, And(o('lo', x) <= h(x), h(x) <= o('hi', x))), patterns=[h(x)]))
        ncall = [0]

        def powell_(func, p, drxns=None, ftol=1e-6, maxit=200, nlog=None, shuffle=False):
            CTX.contracts.add('utils.nrmin.powell')
            ncall[0] += 1
            CTX.prove('the minimiser gets the score function', z3.BoolVal(getattr(func, '__func__', None) is ib.Inference._score
                                                                          and func.__self__ is inf))
            CTX.prove('the minimiser gets one number per varying parameter', toint(p._vc_len()) == n)
            if drxns is not None:
                CTX.prove('directions are an n by n matrix', And(*[zint(d) == n for d in drxns.shp]) if len(drxns.shp) == 2 else z3.BoolVal(False))
            pf = p.frozen()
            g0 = G(pf)
            evaluated('p%d' % ncall[0])
            w = CTX.choose(3)
            if w == 1:
                raise nm.IterErr('x')
            if w == 2:
                raise pm.ParamRangeError('range')
            q = NArr.fresh('q%d' % ncall[0], (SInt(n),), inp=False)
            qf = q.frozen()
            r = real('r', False)
            CTX.assume(And(r._z == G(qf), r._z <= g0))
            return q, r, integer('iters', False)
        ib.powell = powell_
        CTX.roots = [heap, lst]
        CTX.loop_hints = [Inverter(lst)]
        z = integer('zq', False)._z

        def frame():
            CTX.prove('parameters that do not vary are unchanged', Implies(Not(isin(z)), heap.at('value', z) == o('value', z)))
            for a in ('delta', 'lo', 'hi', 'bounded'):
                CTX.prove('%s unchanged' % a, heap.at(a, z) == o(a, z))
        try:
            r = getattr(inf, fn)()
        except (nm.IterErr, pm.ParamRangeError):
            CTX.cover('no result')
            frame()
            return
        CTX.cover('result')
        ps, st = r[0], toreal(r[1])
        CTX.prove('one value per varying parameter', toint(ps._vc_len()) == n)
        j = integer('jq', False)._z
        CTX.assume(And(0 <= j, j < n))
        CTX.prove('the model is left at the returned values', ps.zat((j,)) == heap.at('value', f(j)))
        CTX.prove('the returned statistic is the score of the model as it is left', st == FA(lam(lambda y: heap.at('value', y))))
        CTX.prove('the statistic is not worse than at the start', sgn * st <= sgn * start)
        frame()
    explore(path)


def refused():
    loader.fresh_import('inference.pie.inference_base')
    ib = get('pie.inference_base')

    def path():
        inf = object.__new__(ib.Inference)
        inf.varying_params, inf.stepping_params = [], []
        inf.min_method, inf.min_tol, inf.use_unbounded = 'powell', 1e-3, False
        sc = real('score')
        inf.score = lambda: sc
        try:
            inf.optimize()
            CTX.prove('optimising without varying parameters is refused', z3.BoolVal(False))
        except ib.InferenceError:
            CTX.prove('optimising without varying parameters is refused', z3.BoolVal(True))
        CTX.prove('fit without varying or stepping parameters is the score', toreal(inf.fit()) == sc._z)
    explore(path)


TASKS = [('%s, %s, %s' % (f, d, 'bounds mapped' if u else 'bounds not mapped'), lambda f=f, d=d, u=u: task(f, d, u))
         for f in ('optimize', 'fit') for d in ('max', 'min') for u in (False, True)]
TASKS += [('nothing varies', refused)]
