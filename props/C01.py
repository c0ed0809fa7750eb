"""C01: role lists and statuses: class invariant of Inference, preserved by
_on_param_status_change for any number of parameters; the handler operations
report each status change exactly once."""
import z3
from z3 import And, Or, Implies, Not
from engine import loader
from engine.core import *
from engine.heap import *
from props.pielib import *
from props.pieheap import world, PRef, NAMES, NEXTD, PREVD, enums

LEVEL = 'proof'
FILES = ['pie/inference_base.py', 'pie/param.py', 'pie/realparam.py']
FUNCTIONS = ['pie.inference_base.Inference._on_param_status_change', 'pie.inference_base.Inference.reset_steps',
             'pie.param.ScalarParamHandler._set_status'] + \
    ['pie.realparam.RealParamHandler.' + f for f in ('fix', 'vary', 'linstep', 'logstep', 'step')]
EXTS = ['_obsinfo']
ASSUMPTIONS = ['floats as real numbers', 'handler objects compare by identity (object.__eq__)',
               'first_step: contract proved in C04 (index 0, nothing else of the role state)',
               'the user does not edit the role lists directly']
RUN_S = 6
TASK_S = 90


def change(old, new):
    loader.fresh_import('inference.pie.inference_base')
    ib = get('pie.inference_base')

    def path():
        CTX.prove('enum values as used by the contracts', z3.BoolVal(enums()))
        w = world(ib)
        x = CTX.fresh('param', z3.IntSort())
        CTX.assume(w.heap.old('status', x) == old)
        if new == STEPPING or old == STEPPING:
            CTX.assume(And(w.heap.old('steps', x) >= 2))
        par = PRef(w.heap, x)
        w.heap.status.write((x,), new)           # as _set_status does before telling the listeners
        try:
            w.inf._on_param_status_change(par, old, new)
        except Exception as e:
            CTX.prove('status change %d->%d raises nothing' % (old, new), z3.BoolVal(False))
            return
        CTX.cover('changed')
        L = dict(zip((FIXED, STEPPING, VARYING), (w.inf.fixed_params, w.inf.stepping_params, w.inf.varying_params)))
        nm = '%d->%d: ' % (old, new)
        st = lambda z: w.heap.at('status', z)
        y = CTX.fresh('any', z3.IntSort())
        i = CTX.fresh('i', z3.IntSort())
        for s in L:
            if not isinstance(L[s], IdList):
                raise Unsupported('role list replaced by another object')
            n0, f0, p0 = w.old[s]
            n, f = zint(L[s].n), L[s].fn
            t = nm + NAMES[s] + ' list: '
            px = p0(x)
            if s == old and s != new:
                CTX.prove(t + 'one fewer', n == n0 - 1)
                CTX.prove(t + 'order of the others kept', Implies(And(0 <= i, i < n), f(i) == z3.If(i < px, f0(i), f0(i + 1))))
            elif s == new and s != old:
                CTX.prove(t + 'one more', n == n0 + 1)
                CTX.prove(t + 'entered at the end', f(n0) == x)
                CTX.prove(t + 'order of the others kept', Implies(And(0 <= i, i < n0), f(i) == f0(i)))
            else:
                CTX.prove(t + 'length unchanged', n == n0)
                CTX.prove(t + 'order unchanged', Implies(And(0 <= i, i < n0), f(i) == f0(i)))
            # class invariant afterwards
            CTX.prove(t + 'holds only parameters of that status', Implies(And(0 <= i, i < n), st(f(i)) == s))
            j = CTX.fresh('j', z3.IntSort())
            CTX.prove(t + 'no duplicates', Implies(And(0 <= i, i < n, 0 <= j, j < n, i != j), f(i) != f(j)))
            CTX.prove(t + 'every parameter of that status is listed', Implies(st(y) == s, L[s].has(y)))
        CTX.prove(nm + 'a direction is recorded exactly for stepping parameters',
                  w.info.pres.cur((y,)) == (st(y) == STEPPING))
        if STEPPING in (old, new):
            CTX.prove(nm + 'all stepping parameters at their first step',
                      Implies(st(y) == STEPPING, w.heap.at('step_num', y) == 0))
            CTX.prove(nm + 'all stepping parameters head forward', Implies(st(y) == STEPPING, w.info.val.cur((y,)) == NEXTD))
        else:
            CTX.prove(nm + 'stepping state of the others unchanged',
                      And(w.heap.at('step_num', y) == w.heap.old('step_num', y), Implies(st(y) == STEPPING, w.info.val.cur((y,)) == w.info.val0((y,)))))
        CTX.prove(nm + 'steps untouched', w.heap.at('steps', y) == w.heap.old('steps', y))
    explore(path)


class Rec(Log):
    """listener checking the precondition of the status-change contract"""

    def _on_param_status_change(self, h, old, new):
        Log._on_param_status_change(self, h, old, new)
        self.at = (h.status, {k: h.__dict__.get(k) for k in ('stype', 'slo', 'shi', 'steps', 'step_num')})


def op(name, status, bounded):
    loader.fresh_import('inference.pie.realparam')
    rp, pm = get('pie.realparam'), get('pie.param')

    def path():
        h, own0 = handler(rp, status, bounded, 0 if status == STEPPING else None)
        own = Rec()
        own.__dict__.update(own0.__dict__)
        own.status, own.values = [], []
        h.owner = own
        h.listeners = [own]
        if status == UNDEF:
            h._value = None
        a, b, n = real('a'), real('b'), integer('n')
        CTX.assume(n >= 2)
        new = dict(fix=FIXED, fixnow=FIXED, vary=VARYING, varynow=VARYING, linstep=STEPPING, logstep=STEPPING, step=STEPPING)[name]
        call = dict(fix=lambda: h.fix(a), fixnow=lambda: h.fix(), vary=lambda: h.vary(a, b), varynow=lambda: h.vary(),
                    linstep=lambda: h.linstep(a, b, n), logstep=lambda: h.logstep(a, b, n), step=lambda: h.step(a, b, n))[name]
        err = None
        try:
            call()
        except Exception as e:
            err = e
        CTX.cover('%s from %d: %s' % (name, status, type(err).__name__))
        t = '%s from status %d: ' % (name, status)
        if err is None:
            CTX.prove(t + 'status is the new role', z3.BoolVal(h.status == new))
            CTX.prove(t + 'reported exactly once, with old and new role',
                      z3.BoolVal(len(own.status) == 1 and own.status[0][0] is h and own.status[0][1:] == (status, new)))
        else:
            # refused: either nothing was reported and the role is kept, or the new role was reported
            ok = (not own.status and h.status == status) or \
                (len(own.status) == 1 and own.status[0][1:] == (status, new) and h.status == new)
            CTX.prove(t + 'refused operation reports what it did', z3.BoolVal(ok))
        if own.status:
            s, d = own.at
            CTX.prove(t + 'role is set when the owner is told', z3.BoolVal(s == new))
            if new == STEPPING:
                CTX.prove(t + 'steps are set when the owner is told',
                          And(toint(d['steps']) == n._z, toint(d['step_num']) == 0, toreal(d['slo']) == a._z, toreal(d['shi']) == b._z))
    explore(path)


TASKS = []
for _o in (UNDEF, FIXED, STEPPING, VARYING):
    for _n in (FIXED, STEPPING, VARYING):
        TASKS.append(('change %d->%d' % (_o, _n), lambda o=_o, n=_n: change(o, n)))
for _m in ('fix', 'fixnow', 'vary', 'varynow', 'linstep', 'logstep', 'step'):
    TASKS.append(('handler ' + _m, lambda m=_m: [op(m, s, b) for s in (UNDEF, FIXED, STEPPING, VARYING) for b in (0, 1)]))
