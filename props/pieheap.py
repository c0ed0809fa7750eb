"""An Inference with any number of parameters: role lists are symbolic,
handlers are references; handler moves are used through the contracts proved
in C04, status changes through those proved in C01."""
import z3
from z3 import And, Or, Implies, Not, ForAll, Int
from engine import loader
from engine.core import *
from engine.heap import *
from props.pielib import get, FIXED, STEPPING, VARYING, UNDEF

NEXTD, PREVD = 0, 1
NAMES = {FIXED: 'fixed', STEPPING: 'stepping', VARYING: 'varying'}


class PRef(HObj):
    """parameter handler: contracts of the moves (proved in C04 on the real code)"""

    def _stepping(self, exc):
        if not CTX.branch(self._heap.at('status', self._id) == STEPPING):
            raise exc('Parameter is not set to step!')

    def first_step(self):
        self._stepping(RuntimeError)
        CTX.contracts.add('RealParamHandler.first_step')
        self.step_num = 0

    def last_step(self):
        self._stepping(RuntimeError)
        CTX.contracts.add('RealParamHandler.last_step')
        self.step_num = self.steps - 1

    def next_step(self):
        pm = get('pie.param')
        self._stepping(pm.ParamError)
        CTX.contracts.add('RealParamHandler.next_step')
        if self.step_num == self.steps - 1:
            raise pm.ParamRangeError('beyond')
        self.step_num = self.step_num + 1

    def prev_step(self):
        pm = get('pie.param')
        self._stepping(pm.ParamError)
        CTX.contracts.add('RealParamHandler.prev_step')
        if self.step_num == 0:
            raise pm.ParamRangeError('beyond')
        self.step_num = self.step_num - 1

    def step_index(self):
        self._stepping(RuntimeError)
        return self.step_num


def enums():
    pm = get('pie.param')
    return (pm.undef, pm.fixed, pm.stepping, pm.varying) == (UNDEF, FIXED, STEPPING, VARYING) and \
        (pm.nextd, pm.prevd) == (NEXTD, PREVD)


class World:
    pass


def world(ib, axioms=True):
    """Inference instance in an arbitrary state satisfying the C01 invariant"""
    w = World()
    w.heap = Heap(status='i', step_num='i', steps='i')
    w.lists = {}
    for s, n in NAMES.items():
        ln = CTX.fresh('n_' + n, z3.IntSort())
        w.lists[s] = IdList.make(w.heap, n, ln, PRef)
        for a in w.lists[s].axioms[:2 if axioms else 1]:
            CTX.assume(a)
    inf = object.__new__(ib.Inference)
    inf.fixed_params, inf.stepping_params, inf.varying_params = (w.lists[s] for s in (FIXED, STEPPING, VARYING))
    inf.stepping_info = w.info = SymDict('dir')
    inf.use_unbounded = False
    inf.on_use_done = False
    w.inf = inf
    CTX.roots = [w.heap, w.info] + list(w.lists.values())
    CTX.loop_hints = [Inverter(*w.lists.values())]
    x = Int('x!')
    j = Int('j!')
    at = lambda z: w.heap.old('status', z)
    w.old = {s: (zint(l.n), l.fn, l.pos) for s, l in w.lists.items()}
    if not axioms:
        return w
    for s, l in w.lists.items():
        f, n = l.sym_f, zint(l.n)
        CTX.assume(ForAll([j], Implies(And(0 <= j, j < n), at(f(j)) == s), patterns=[f(j)]))
        CTX.assume(ForAll([x], Implies(at(x) == s, And(l.sym_p(x) >= 0, l.sym_p(x) < n, f(l.sym_p(x)) == x)), patterns=[at(x)]))
    CTX.assume(ForAll([x], w.info.pres0((x,)) == (at(x) == STEPPING), patterns=[w.info.pres0((x,))]))
    CTX.assume(ForAll([x], Implies(at(x) == STEPPING, Or(w.info.val0((x,)) == NEXTD, w.info.val0((x,)) == PREVD)),
                      patterns=[w.info.val0((x,))]))
    CTX.assume(ForAll([x], And(at(x) >= 0, at(x) <= 3), patterns=[at(x)]))
    CTX.assume(ForAll([x], Implies(at(x) == STEPPING, And(w.heap.old('steps', x) >= 2, w.heap.old('step_num', x) >= 0,
                                                          w.heap.old('step_num', x) < w.heap.old('steps', x))),
                      patterns=[w.heap.old('step_num', x)]))
    return w
