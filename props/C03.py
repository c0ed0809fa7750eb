"""C03: the logistic map between the allowed range and the real line"""
import z3
from z3 import And, Or, Implies, Not
from engine import loader
from engine.core import *
from engine.lemmas import EXP, LOG
from props.pielib import *

LEVEL = 'proof'
FILES = ['pie/realparam.py', 'pie/param.py']
FUNCTIONS = ['pie.realparam.RealParamHandler._unbounded_get_value', 'pie.realparam.RealParamHandler._unbounded_set_value',
             'pie.param.ScalarParamHandler._set_value']
EXTS = ['_obsinfo']
ASSUMPTIONS = ['floats as real numbers; overflow of exp modelled as a nondeterministic outcome possible only for positive arguments',
               'scipy exp/log: real exponential and logarithm (axioms in engine/lemmas.py)']
RUN_S = 4
TASK_S = 60


def start():
    loader.fresh_import('inference.pie.realparam')
    return get('pie.realparam'), get('pie.param')


def overflow(x):
    b = CTX.fresh('overflow', z3.BoolSort())
    CTX.assume(Implies(b, toreal(x) > 1))
    CTX.overs.append(b)
    return SBool(b)


def setup(rp, can_overflow):
    CTX.overs = []
    CTX.overflow_model = overflow if can_overflow else None
    h, own = handler(rp, VARYING, True)
    CTX.assume(h.lo < h.hi)
    return h, own


def set_task():
    rp, pm = start()

    def path():
        h, own = setup(rp, True)
        u = real('u')
        pre = snap(h)
        h._unbounded_set_value(u)
        CTX.cover('set')
        v, lo, hi, E = toreal(h._value), h.lo._z, h.hi._z, EXP(u._z)
        over = Or(*CTX.overs) if CTX.overs else z3.BoolVal(False)
        CTX.prove('the value stays inside the closed range', And(lo <= v, v <= hi), hyps=[E > 0])
        CTX.prove('coordinates too large for exp give the end', Implies(over, v == hi))
        CTX.prove('coordinate zero gives the middle', Implies(u._z == 0, 2 * v == lo + hi))
        CTX.prove('logistic map', Implies(Not(over), v * (1 + E) == lo + hi * E), hyps=[E > 0])
        CTX.prove('the owner sees the value', toreal(getattr(own, h.value_name)) == v)
        unchanged(h, pre, 'unbounded set', skip=('_value',))
        CTX.prove('the change is announced once', z3.BoolVal(len(own.values) == 1))
    explore(path)


def mono():
    """lemma over the contract of set: strictly increasing"""
    def path():
        lo, hi, v1, v2, E1, E2 = [z3.Real(n) for n in 'lo hi v1 v2 E1 E2'.split()]
        CTX.prove('strictly increasing in the coordinate', v1 < v2,
                  hyps=[lo < hi, E1 > 0, E1 < E2, v1 * (1 + E1) == lo + hi * E1, v2 * (1 + E2) == lo + hi * E2])
        CTX.cover('mono')
    explore(path)


def roundtrip():
    rp, pm = start()

    def path():
        h, own = setup(rp, False)
        u = real('u')
        h._unbounded_set_value(u)
        v, lo, hi, E = toreal(h._value), h.lo._z, h.hi._z, EXP(u._z)
        CTX.prove('lemma: gaps to the ends', And((v - lo) * (1 + E) == (hi - lo) * E, (hi - v) * (1 + E) == hi - lo), hyps=[E > 0])
        CTX.prove('lemma: strictly inside', And(v > lo, v < hi),
                  hyps=[E > 0, (v - lo) * (1 + E) == (hi - lo) * E, (hi - v) * (1 + E) == hi - lo])
        g = toreal(h._unbounded_get_value())
        a, b, x, y = v - lo, hi - v, z3.Real('x'), z3.Real('y')
        # log a - log b = log(a/b), and a/b = E, log E = u
        CTX.prove('lemma: a/b = exp(u)', x / y == E, hyps=[E > 0, x * (1 + E) == (hi - lo) * E, y * (1 + E) == hi - lo, hi > lo, y > 0])
        CTX.prove('reading back returns the coordinate that was set', g == u._z,
                  hyps=[LOG(a) - LOG(b) == LOG(a / b), a / b == E, LOG(E) == u._z, LOG(a / b) == LOG(E)])
    explore(path)


def roundtrip2():
    rp, pm = start()

    def path():
        h, own = setup(rp, False)
        v0, lo, hi = toreal(h._value), h.lo._z, h.hi._z
        CTX.assume(And(lo < v0, v0 < hi))
        pre = snap(h)
        g = h._unbounded_get_value()
        unchanged(h, pre, 'reading the coordinate')
        h._unbounded_set_value(g)
        v = toreal(h._value)
        E = EXP(toreal(g))
        q = z3.Real('q')
        CTX.prove('setting the coordinate that was read restores the value', v == v0,
                  hyps=[E == q, q > 0, q * (hi - v0) == v0 - lo])
    explore(path)


def refuse(status):
    rp, pm = start()

    def path():
        CTX.overs, CTX.overflow_model = [], overflow
        h, own = handler(rp, status, True, 0 if status == STEPPING else None)
        pre = snap(h)
        try:
            h._unbounded_set_value(real('u'))
            CTX.prove('unbounded set of a non-varying parameter is refused', z3.BoolVal(False))
        except pm.ParamError:
            CTX.prove('unbounded set of a non-varying parameter is refused', z3.BoolVal(True))
        unchanged(h, pre, 'refused unbounded set')
        try:
            h._unbounded_get_value()
            CTX.prove('unbounded get of a non-varying parameter is refused', z3.BoolVal(False))
        except (RuntimeError, pm.ParamError):
            CTX.prove('unbounded get of a non-varying parameter is refused', z3.BoolVal(True))
        unchanged(h, pre, 'refused unbounded get')
        CTX.prove('refusals announce nothing', z3.BoolVal(not own.status and not own.values))
    explore(path)


TASKS = [('set', set_task), ('monotone', mono), ('get after set', roundtrip), ('set after get', roundtrip2),
         ('refused fixed', lambda: refuse(FIXED)), ('refused stepping', lambda: refuse(STEPPING))]
