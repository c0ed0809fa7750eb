"""C02: range enforcement contracts on RealParamHandler"""
import z3
from z3 import And, Or, Implies, Not
from engine import loader
from engine.core import *
from props.pielib import *

LEVEL = 'proof'
FILES = ['pie/realparam.py', 'pie/param.py']
FUNCTIONS = ['pie.realparam.RealParamHandler.' + f for f in ('set_value', 'fix', 'vary', 'range', 'linstep', 'logstep', 'step',
                                                             'first_step', 'last_step', 'next_step', 'prev_step')] + \
    ['pie.param.ScalarParamHandler._set_value', 'pie.param.ScalarParamHandler._set_status', 'pie.realparam.RealParamValue.__new__']
EXTS = ['_obsinfo']
ASSUMPTIONS = ['floats as real numbers (comparisons are exact on floats as well)',
               'listeners (on_param_change of the user model) do not themselves assign parameters (documented)']
RUN_S = 4
TASK_S = 60


def start(status, bounded, stype=None):
    loader.fresh_import('inference.pie.realparam')
    rp, pm = get('pie.realparam'), get('pie.param')
    return rp, pm


def inr(h, v):
    return And(h.lo._z <= v._z, v._z <= h.hi._z)


def value_ok(h, own, v, what):
    CTX.prove(what + ': the value is exactly the given one', toreal(h._value) == v._z)
    CTX.prove(what + ': the owner sees that value', toreal(getattr(own, h.value_name)) == v._z)
    CTX.prove(what + ': get_value returns it', toreal(h.get_value()) == v._z)


def setter(op, status, bounded):
    rp, pm = start(status, bounded)

    def path():
        h, own = handler(rp, status, bounded, 0 if status == STEPPING else None)
        v = real('v')
        pre = snap(h)
        refused = False
        try:
            if op == 'set':
                h.set_value(v)
            elif op == 'fix':
                h.fix(v)
            elif op == 'vary':
                h.vary(v, real('dl'))
            elif op == 'vary+range':
                r1, r2 = real('r1'), real('r2')
                h.vary(v, real('dl'), (r1, r2))
        except pm.ParamRangeError:
            refused = 'range'
        except pm.ParamError:
            refused = 'param'
        except ValueError:
            refused = 'value'
        CTX.cover('%s -> %s' % (op, refused))
        if op == 'set' and status != VARYING:
            CTX.prove('set_value of a non-varying parameter is refused', z3.BoolVal(refused == 'param'))
            unchanged(h, pre, 'refused set_value')
            return
        if op == 'vary' and not bounded:
            CTX.prove('vary without any range is refused', z3.BoolVal(refused == 'value'))
            CTX.prove('vary without range: value unchanged', same_val(pre['_value'], snap(h)['_value']))
            return
        if op == 'vary+range':
            lo, hi = z3.If(r1._z <= r2._z, r1._z, r2._z), z3.If(r1._z <= r2._z, r2._z, r1._z)
            CTX.prove('vary with a range adopts it', And(toreal(h.lo) == lo, toreal(h.hi) == hi, z3.BoolVal(bool(h.bounded))))
            ok = And(lo <= v._z, v._z <= hi)
        else:
            ok = inr(h, v) if bounded else z3.BoolVal(True)
        if refused:
            CTX.prove('%s: refusal is a range error' % op, z3.BoolVal(refused == 'range'))
            CTX.prove('%s: refused only outside the range' % op, Not(ok))
            CTX.prove('%s: a refused value leaves the old one' % op, same_val(pre['_value'], snap(h)['_value']))
            if op in ('set', 'fix'):
                unchanged(h, pre, 'refused ' + op)
            elif op == 'vary':
                unchanged(h, pre, 'refused vary', ('lo', 'hi', 'bounded'))
        else:
            CTX.prove('%s: accepted only inside the closed range' % op, ok)
            value_ok(h, own, v, op)
            CTX.prove('%s: status' % op, z3.BoolVal(h.status == (FIXED if op == 'fix' else VARYING)))
            if op in ('set', 'fix', 'vary'):
                unchanged(h, pre, op, ('lo', 'hi', 'bounded'))
    explore(path)


def rng(two):
    rp, pm = start(0, 0)

    def path():
        h, own = handler(rp, FIXED, False)
        a, b = real('a'), real('b')
        pre = snap(h)
        h.range(a, b) if two else h.range((a, b))
        CTX.prove('range: ends are the smaller and the larger value',
                  And(toreal(h.lo) <= toreal(h.hi),
                      Or(And(toreal(h.lo) == a._z, toreal(h.hi) == b._z), And(toreal(h.lo) == b._z, toreal(h.hi) == a._z))))
        CTX.prove('range: the parameter is bounded from then on', z3.BoolVal(bool(h.bounded)))
        unchanged(h, pre, 'range', ('_value', 'status', 'delta'))
    explore(path)


def steps(log, status, bounded, oldtype):
    rp, pm = start(0, 0)

    def path():
        h, own = handler(rp, status, bounded, oldtype)
        lo, hi, n = real('a'), real('b'), integer('n')
        CTX.assume(n >= 2)
        if log:
            CTX.assume(lo._z * hi._z > 0)
        pre = snap(h)
        ok = And(inr(h, lo), inr(h, hi)) if bounded else z3.BoolVal(True)
        try:
            (h.logstep if log else h.linstep if CTX.choose(2) else h.step)(lo, hi, n)
        except pm.ParamRangeError:
            CTX.cover('refused')
            CTX.prove('steps: refused only when an end is outside the range', Not(ok))
            unchanged(h, pre, 'refused steps')
            CTX.prove('refused steps: nothing is announced', z3.BoolVal(not own.status and not own.values))
            return
        CTX.cover('accepted')
        CTX.prove('steps: accepted only when both ends lie in the closed range', ok)
        CTX.prove('steps: status is stepping', z3.BoolVal(h.status == STEPPING))
        CTX.prove('steps: starts at exactly lo', And(toreal(h._value) == lo._z, toint(h.step_num) == 0))
        CTX.prove('steps: stores the ends and the number', And(toreal(h.slo) == lo._z, toreal(h.shi) == hi._z, toint(h.steps) == n._z))
        CTX.prove('steps: the change is announced', z3.BoolVal(own.status == [(h, status, STEPPING)]))
    explore(path)


def defaults(log):
    """ends not given are those of the range"""
    rp, pm = start(0, 0)

    def path():
        h, own = handler(rp, FIXED, True)
        if log:
            CTX.assume(h.lo._z > 0)
        n = integer('n')
        CTX.assume(n >= 2)
        (h.logstep if log else h.linstep)(n=n)
        CTX.prove('default ends', And(toreal(h.slo) == h.lo._z, toreal(h.shi) == h.hi._z, toreal(h._value) == h.lo._z))
    explore(path)


TASKS = []
for _op in ('set', 'fix', 'vary', 'vary+range'):
    for _s in (FIXED, STEPPING, VARYING) + ((UNDEF,) if _op == 'fix' else ()):
        for _b in (0, 1):
            if _op == 'set' and _s == VARYING and not _b:
                pass
            TASKS.append(('%s status=%d bounded=%d' % (_op, _s, _b), lambda o=_op, s=_s, b=_b: setter(o, s, b)))
TASKS += [('range of two', lambda: rng(1)), ('range of a pair', lambda: rng(0))]
for _l in (0, 1):
    for _s, _o in ((FIXED, None), (VARYING, None), (STEPPING, 0), (STEPPING, 1)):
        TASKS.append(('%sstep status=%d' % ('log' if _l else 'lin', _s) + ' %s' % _o, lambda l=_l, s=_s, o=_o: steps(l, s, 1, o)))
    TASKS.append(('%sstep unbounded' % ('log' if _l else 'lin'), lambda l=_l: steps(l, FIXED, 0, None)))
    TASKS.append(('%sstep default ends' % ('log' if _l else 'lin'), lambda l=_l: defaults(l)))


def grouped():
    """one process per group keeps the check fast"""
    gs = {}
    for n, f in TASKS:
        gs.setdefault(n.split()[0], []).append(f)

    def mk(fs):
        return lambda: [f() for f in fs]
    return [(n, mk(fs)) for n, fs in gs.items()]


TASKS = grouped()
