"""C09: get_params / set_params on the real descriptors and handlers."""
import itertools
import z3
from z3 import And, Or, Implies, Not
from engine import loader
from engine.core import *
from engine.arr import VList
from props.pielib import *

LEVEL = 'proof'
FILES = ['pie/inference_base.py', 'pie/containers.py', 'pie/realparam.py', 'pie/param.py']
FUNCTIONS = ['pie.inference_base.Inference.get_params', 'pie.inference_base.Inference.set_params', 'pie.containers.ParamValues.store',
             'pie.realparam.RealParamValue.copy_value', 'pie.param.Param.__get__', 'pie.param.Param.__set__', 'pie.realparam.RealParamHandler.fix',
             'pie.realparam.RealParamHandler.vary', 'pie.realparam.RealParamHandler.set_value']
EXTS = ['_obsinfo']
ASSUMPTIONS = ['floats as real numbers', 'stored values lie in the ranges in force when they are restored',
               'parameter names differ from the attributes of the snapshot object (names, docs, store)']
BOUNDED = ['number of parameters of the model class: 1, 2 and 3 (every mix of roles, all values)']
RUN_S = 4
TASK_S = 90


def build(m, roles, touched=True):
    ib, rp, sm = get('pie.inference_base'), get('pie.realparam'), get('pie.signalmodel')
    names = ['abc'[i] for i in range(m)]
    ns = {n: rp.RealParam(real('default_' + n), 'doc ' + n) for n in names}
    cls = type(ib.Inference)('Model', (ib.Inference, sm.SignalModel), ns)
    inf = object.__new__(cls)
    inf.fixed_params, inf.varying_params, inf.stepping_params = VList(), VList(), VList()
    inf.stepping_info = {}
    inf.use_unbounded = inf.on_use_done = False
    inf.params = VList(names)
    for n, r in zip(names, roles):
        if r is None:
            continue
        v = real('v_' + n)
        setattr(inf, n, v)
        h = getattr(inf, n).handler
        if r == VARYING:
            h.lo, h.hi, h.bounded = real('lo_' + n), real('hi_' + n), 1
            h.delta = real('delta_' + n)
            CTX.assume(And(h.lo._z <= v._z, v._z <= h.hi._z))
            h.vary()
        elif r == STEPPING:
            h.linstep(v, v + 1, 3)
    return inf, names


def roundtrip(m):
    loader.fresh_import('inference.pie.inference_base')
    get('pie.realparam')

    def path():
        for roles in itertools.product((FIXED, VARYING, None), repeat=m):
            inf, names = build(m, roles)
            before = {n: toreal(getattr(inf, n)) for n in names}
            pv = inf.get_params()
            t = 'roles %s: ' % (roles,)
            for n in names:
                CTX.prove(t + 'snapshot holds the value', toreal(getattr(pv, n)) == before[n])
                CTX.prove(t + 'snapshot value is a bare number', z3.BoolVal(not hasattr(getattr(pv, n), 'handler')))
            CTX.prove(t + 'snapshot lists every parameter', z3.BoolVal(list(pv.names) == names and all(pv.docs[n] == 'doc ' + n for n in names)))
            # change everything
            for n, r in zip(names, roles):
                w = real('w_' + n)
                h = getattr(inf, n).handler
                if r == VARYING:
                    CTX.assume(And(h.lo._z <= w._z, w._z <= h.hi._z))
                    h.set_value(w)
                else:
                    setattr(inf, n, w)
                CTX.prove(t + 'parameter changed', toreal(getattr(inf, n)) == w._z)
                CTX.prove(t + 'snapshot not affected', toreal(getattr(pv, n)) == before[n])
            roles_now = [getattr(inf, n).handler.status for n in names]
            lists = [[p.name for p in l] for l in (inf.fixed_params, inf.varying_params, inf.stepping_params)]
            try:
                inf.set_params(pv)
            except Exception as e:
                CTX.prove(t + 'restoring raises nothing', z3.BoolVal(False))
                continue
            for n in names:
                CTX.prove(t + 'restored exactly', toreal(getattr(inf, n)) == before[n])
                CTX.prove(t + 'handler agrees', toreal(getattr(inf, n).handler.get_value()) == before[n])
            CTX.prove(t + 'roles kept', z3.BoolVal([getattr(inf, n).handler.status for n in names] == roles_now and
                      [[p.name for p in l] for l in (inf.fixed_params, inf.varying_params, inf.stepping_params)] == lists))
            for n in names:
                CTX.prove(t + 'snapshot not affected by restoring', toreal(getattr(pv, n)) == before[n])
        CTX.cover('done')
    explore(path)


def refused(m):
    loader.fresh_import('inference.pie.inference_base')
    pm = get('pie.param')
    get('pie.realparam')

    def path():
        for k in range(m):
            for roles in itertools.product((FIXED, VARYING), repeat=m):
                roles = list(roles)
                roles[k] = STEPPING
                inf, names = build(m, roles)
                pv = inf.get_params()
                try:
                    inf.set_params(pv)
                    ok = False
                except pm.ParamError:
                    ok = True
                CTX.prove('restoring with a stepping parameter is refused (roles %s)' % roles, z3.BoolVal(ok))
                h = getattr(inf, names[k]).handler
                CTX.prove('the stepping parameter keeps stepping', z3.BoolVal(h.status == STEPPING))
        CTX.cover('done')
    explore(path)


TASKS = [('snapshot and restore, %d parameters' % m, lambda m=m: roundtrip(m)) for m in (1, 2, 3)]
TASKS += [('refusal, %d parameters' % m, lambda m=m: refused(m)) for m in (1, 2, 3)]
