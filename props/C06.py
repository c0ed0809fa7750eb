"""C06: do_grid writes, for every visited grid point, the score there; with the
visiting contract of C05 (each cell exactly once, first to last) every cell of
the result holds the score of its grid point."""
import z3
from z3 import And, Or, Implies, Not, ForAll, Int, Function, IntSort, RealSort
from engine import loader
from engine.core import *
from engine.arr import Store, zint, VList
from engine.heap import HObj
from engine.loops import UNDEF as _U
from props.pielib import *
from props.pieheap import world, PRef

LEVEL = 'proof'
FILES = ['pie/inference_base.py', 'pie/containers.py']
FUNCTIONS = ['pie.inference_base.Inference.do_grid', 'pie.inference_base.Inference.fit', 'pie.containers.ScalarGrid.__init__',
             'pie.containers.VectorGrid.__init__']
EXTS = ['_obsinfo']
ASSUMPTIONS = ['step_nums, next_step, reset_steps: contracts proved in C05 (cells identified with the visiting count)',
               'score/optimize: uninterpreted results of the call made at the grid point (C07, C11 specify them)',
               'numpy item assignment with an index tuple addresses exactly that cell']
BOUNDED = ['grid constructors: 1..3 stepping and 1..3 stored parameters (any step numbers)']
RUN_S = 8
TASK_S = 90

S = Function('score_at', IntSort(), RealSort())


class Cell:
    """index tuple of the t-th visited grid point"""
    _vc_state = True

    def __init__(self, t):
        self.t = t

    def __str__(self):
        return '<cell>'


class Vals:
    """value returned by the optimizer at grid point t (comp: 0 = whole array)"""
    _vc_state = True

    def __init__(self, t, comp=0):
        self.t, self.comp = t, comp

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            return self
        if i != 0:
            raise Unsupported('component of the optimum')
        return Vals(self.t, 1)

    def copy(self):
        return self


class CellArr:
    _vc_state = True

    def __init__(self, name):
        self.val = Store('r', lambda j: z3.Function('unset_' + name, IntSort(), RealSort())(*j), name)
        self.set = Store('b', lambda j: z3.BoolVal(False), name + '_set')
        self.comp = Store('i', lambda j: z3.IntVal(-1), name + '_comp')

    def __setitem__(self, c, v):
        if not isinstance(c, Cell):
            raise Unsupported('grid array addressed otherwise')
        if isinstance(v, Vals):
            self.val.write((c.t,), SReal(z3.ToReal(toint(v.t))))
            self.comp.write((c.t,), v.comp)
        else:
            self.val.write((c.t,), v)
        self.set.write((c.t,), True)

    def __getitem__(self, c):
        if not isinstance(c, Cell):
            raise Unsupported('grid array addressed otherwise')
        return SReal(self.val.read((c.t,)))


class Grid:
    _vc_state = True

    def __init__(self, *params):
        self.params = params
        self.values = CellArr('g%d' % len(params))


class Hint:
    def havoc_obj(self, loc, v, tag):
        if isinstance(v, Cell):
            return Cell(integer('hc_' + loc.name(), False))
        if isinstance(v, Vals):
            return Vals(integer('hv_' + loc.name(), False), v.comp)
        return None

    def invs(self, lid, view):
        if 'do_grid' not in lid:
            return
        k = toint(view.k)
        cells = {n: v for n, v in view.env.items() if isinstance(v, Cell)}
        nums = {n: v for n, v in view.env.items() if isinstance(v, SReal)}
        j = Int('j!g')
        for n, c in cells.items():
            t = toint(c.t)
            yield 'cell %s visited' % n, And(0 <= t, t <= k)
        for m, r in nums.items():
            z = toreal(r)
            yield '%s is the largest' % m, ForAll([j], Implies(And(0 <= j, j <= k), S(j) <= z), patterns=[S(j)])
            yield '%s is the smallest' % m, ForAll([j], Implies(And(0 <= j, j <= k), S(j) >= z), patterns=[S(j)])
            for n, c in cells.items():
                yield '%s is the value at %s' % (m, n), z == S(toint(c.t))


def grid(drxn, varying, vargrid, nlog):
    loader.fresh_import('inference.pie.inference_base')
    ib = get('pie.inference_base')
    sm = get('pie.signalmodel')

    class Stub(ib.Inference):
        _vc_state = True

        def __init__(self, w):
            self.t = z3.IntVal(0)
            self.__dict__.update(w.inf.__dict__)
            self.t = SInt(CTX.fresh('t0', IntSort()))
            self.extremize = drxn
            self.calls = 0

        def reset_steps(self):
            CTX.contracts.add('Inference.reset_steps')
            self.t = SInt(z3.IntVal(0))

        def step_nums(self):
            CTX.contracts.add('Inference.step_nums')
            return Cell(self.t)

        def next_step(self):
            CTX.contracts.add('Inference.next_step')
            if self.t + 1 == self.T:
                self.t = SInt(z3.IntVal(0))
                raise sm.StopStepping('end')
            self.t = self.t + 1

        def score(self):
            return SReal(S(toint(self.t)))

        def optimize(self, method=None, tol=None):
            CTX.prove('optimiser options passed on', z3.BoolVal(method is METH and tol is TOL))
            return Vals(self.t), SReal(S(toint(self.t))), 3

    METH, TOL = 'powell', 0.125

    def path():
        w = world(ib, False)
        CTX.loop_hints.append(Hint())
        CTX.peel = True
        self = Stub(w)
        T = CTX.fresh('T', IntSort())
        self.T = SInt(T)
        CTX.assume(And(T >= 1, self.t._z >= 0, self.t._z < T, zint(w.lists[STEPPING].n) >= 1))
        nv = zint(w.lists[VARYING].n)
        CTX.assume(nv >= 1 if varying else nv == 0)
        made = []
        ib.ScalarGrid = lambda p: (made.append(('s', p)), Grid(p))[1]
        ib.VectorGrid = lambda p, v: (made.append(('v', p, v)), Grid(p, v))[1]
        nl = None
        if nlog:
            nl = integer('nlog')
            CTX.assume(nl >= 1)
        CTX.roots = CTX.roots + [self]
        try:
            r = self.do_grid(vargrid=vargrid, method=METH, tol=TOL, nlog=nl)
        except Exception as e:
            CTX.prove('do_grid raises nothing', z3.BoolVal(False))
            return
        CTX.cover('grid done')
        two = varying and vargrid
        CTX.prove('result form', z3.BoolVal(isinstance(r, tuple) == bool(two)))
        res, vres = r if two else (r, None)
        CTX.prove('scalar grid over the stepping parameters', z3.BoolVal(isinstance(res, Grid) and len(res.params) == 1 and
                                                                        res.params[0] is self.stepping_params))
        j = CTX.fresh('cell', IntSort())
        CTX.assume(And(0 <= j, j < T))
        CTX.prove('no cell is left unset', res.values.set.cur((j,)))
        CTX.prove('every cell holds the score at its grid point', res.values.val.cur((j,)) == S(j))
        if varying:
            oi, ov = res.opt_ind, toreal(res.opt_val)
            CTX.prove('best value is not beaten by any cell', ov >= S(j) if drxn == ib.maximize else ov <= S(j))
            CTX.prove('best index is the cell of the best value', And(0 <= toint(oi.t), toint(oi.t) < T, S(toint(oi.t)) == ov))
        if two:
            CTX.prove('vector grid over stepping and varying parameters', z3.BoolVal(
                isinstance(vres, Grid) and len(vres.params) == 2 and vres.params[0] is self.stepping_params and vres.params[1] is self.varying_params))
            CTX.prove('every cell of the companion array holds the optimum of its grid point',
                      And(vres.values.set.cur((j,)), vres.values.val.cur((j,)) == z3.ToReal(j),
                          vres.values.comp.cur((j,)) == z3.If(nv == 1, 1, 0)))
            CTX.prove('same best index for the companion', z3.BoolVal(isinstance(vres.opt_ind, Cell)) if not isinstance(vres.opt_ind, Cell) else
                      toint(vres.opt_ind.t) == toint(oi.t))
    explore(path)


def fit():
    loader.fresh_import('inference.pie.inference_base')
    ib = get('pie.inference_base')

    class Stub(ib.Inference):
        _vc_state = True

        def __init__(self, w):
            self.__dict__.update(w.inf.__dict__)
            self.log = []

        def score(self):
            self.log.append('score')
            return 'SCORE'

        def optimize(self, method=None, tol=None):
            self.log.append(('opt', method, tol))
            return 'PARAMS', 'EXT', 'EXTRA'

        def do_grid(self, vargrid=False, method=None, tol=None, nlog=None):
            self.log.append(('grid', vargrid, method, tol, nlog))
            return 'GRID'

    def path():
        w = world(ib, False)
        self = Stub(w)
        ns, nv = zint(w.lists[STEPPING].n), zint(w.lists[VARYING].n)
        r = self.fit('vg', 'me', 'to', 'nl')
        what = 'score' if r == 'SCORE' else 'grid' if r == 'GRID' else 'opt'
        CTX.cover('fit ' + what)
        if what == 'score':
            CTX.prove('plain score only without varying and stepping parameters', And(ns == 0, nv == 0))
        elif what == 'grid':
            CTX.prove('grid exactly with stepping parameters', ns > 0)
            CTX.prove('grid options passed on', z3.BoolVal(self.log == [('grid', 'vg', 'me', 'to', 'nl')]))
        else:
            CTX.prove('optimisation exactly with varying and no stepping parameters', And(ns == 0, nv > 0))
            CTX.prove('optimum returned', z3.BoolVal(r == ('PARAMS', 'EXT') and self.log == [('opt', 'me', 'to')]))
    explore(path)


def constructors():
    loader.fresh_import('inference.pie.containers')
    ct = get('pie.containers')

    class P:
        _vc_state = True

        def __init__(self, i):
            self.name = 'p%d' % i
            self.slo, self.shi, self.steps, self.stype = real('lo%d' % i), real('hi%d' % i), integer('n%d' % i), i % 2

    def path():
        for m in range(1, 5):
            ps = VList([P(i) for i in range(m)])
            for p in ps:
                CTX.assume(p.steps >= 2)
            grids = [('scalar', ct.ScalarGrid(ps), 1)] if m <= 3 else []
            for v in (1, 2, 3):
                if m + (v > 1) <= 3:
                    grids.append(('vector', ct.VectorGrid(ps, VList([P(9 + k) for k in range(v)])), v))
            for what, g, v in grids:
                t = '%s grid, %d stepping %d stored: ' % (what, m, v)
                want = [p.steps for p in ps] + ([v] if v > 1 else [])
                CTX.prove(t + 'one axis per stepping parameter, in order', z3.BoolVal(
                    g.ndim == m and len(g.axes) == m and all(a[0] == p.name and a[1] is p.slo and a[2] is p.shi and a[3] is p.steps and a[4] == p.stype
                                                             for a, p in zip(g.axes, ps))))
                CTX.prove(t + 'shape', And(z3.BoolVal(len(g.values.shp) == len(want)), *[zint(a) == zint(b) for a, b in zip(g.values.shp, want)]))
    explore(path)


TASKS = [('grid %s varying=%d vargrid=%d nlog=%d' % (d, v, g, n), lambda d=d, v=v, g=g, n=n: grid(d, v, g, n))
         for d in ('max', 'min') for v, g in ((0, 0), (0, 1), (1, 0), (1, 1)) for n in (0, 1)]
TASKS += [('fit', fit), ('constructors', constructors)]
