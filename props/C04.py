"""C04: representation invariant of a stepping parameter:
value = i-th of the n declared values, preserved by every move"""
import z3
from z3 import And, Or, Implies, Not, ToReal
from engine import loader
from engine.core import *
from engine.lemmas import EXP, LOG
from props.pielib import *

LEVEL = 'proof'
FILES = ['pie/realparam.py', 'pie/param.py']
FUNCTIONS = ['pie.realparam.RealParamHandler.' + f for f in ('linstep', 'logstep', 'step', 'next_step', 'prev_step', 'first_step',
                                                             'last_step', 'step_index')] + ['pie.param.ScalarParamHandler._set_value']
EXTS = ['_obsinfo']
ASSUMPTIONS = ['floats as real numbers (accumulated rounding not modelled in the proof)',
               'scipy exp/log: real exponential and logarithm (axioms in engine/lemmas.py)']
RUN_S = 4
TASK_S = 60


def start():
    loader.fresh_import('inference.pie.realparam')
    return get('pie.realparam'), get('pie.param')


def gridval(h, i):
    """i-th declared value (specification)"""
    n1 = ToReal(toint(h.steps) - 1)
    lo, hi = toreal(h.slo), toreal(h.shi)
    if h.stype == 0:
        return lo + ToReal(i) * (hi - lo) / n1
    return lo * EXP(ToReal(i) * (LOG(hi / lo) / n1))


def rep(h):
    """representation invariant linking the stored increment to the ends"""
    n1 = ToReal(toint(h.steps) - 1)
    lo, hi = toreal(h.slo), toreal(h.shi)
    if h.stype == 0:
        return [toreal(h.delta) == (hi - lo) / n1]
    return [toreal(h.fac) == EXP(LOG(hi / lo) / n1)]


def ends(h):
    """facts used as lemma instances for log steps"""
    if h.stype == 0:
        return []
    lo, hi, n1 = toreal(h.slo), toreal(h.shi), ToReal(toint(h.steps) - 1)
    d = LOG(hi / lo) / n1
    i = toint(h.step_num)
    return [EXP(LOG(hi / lo)) == hi / lo, n1 * d == LOG(hi / lo), EXP(n1 * d) == EXP(LOG(hi / lo)), EXP(0 * d) == 1,
            EXP(ToReal(i) * d) == EXP(ToReal(i - 1) * d) * EXP(d), EXP(ToReal(i + 1) * d) == EXP(ToReal(i) * d) * EXP(d),
            EXP(d) > 0, EXP(ToReal(i) * d) > 0, EXP(ToReal(i - 1) * d) > 0, EXP(ToReal(i + 1) * d) > 0]


def declare(log, given='ab', op=None):
    """ends not given are those of the allowed range"""
    rp, pm = start()

    def path():
        h, own = handler(rp, FIXED, given != 'ab')
        lo, hi, n = real('a') if 'a' in given else h.lo, real('b') if 'b' in given else h.hi, integer('n')
        CTX.assume(n >= 2)
        if log:
            CTX.assume(lo._z * hi._z > 0)
        if given != 'ab':
            CTX.assume(And(h.lo._z <= lo._z, lo._z <= h.hi._z, h.lo._z <= hi._z, hi._z <= h.hi._z))
        f, kw = getattr(h, op or ('logstep' if log else 'linstep')), {}
        if 'a' in given:
            kw['lo'] = lo
        if 'b' in given:
            kw['hi'] = hi
        try:
            f(lo, hi, n) if given == 'ab' else f(n=n, **kw)
        except (pm.ParamRangeError, ValueError, AttributeError, TypeError, ZeroDivisionError) as e:
            CTX.prove('a legal declaration is accepted (%s)' % type(e).__name__, z3.BoolVal(False))
            raise PathEnd()
        CTX.cover('declared')
        CTX.prove('declaration: ends and number stored', And(toreal(h.slo) == lo._z, toreal(h.shi) == hi._z, toint(h.steps) == n._z))
        CTX.prove('declaration: spacing type stored', z3.BoolVal(h.stype == (1 if log else 0)))
        for r in rep(h):
            CTX.prove('declaration: increment matches the ends', r)
        CTX.prove('declaration: index 0 at exactly lo', And(toint(h.step_num) == 0, toreal(h._value) == lo._z))
        CTX.prove('declaration: value is the 0-th grid value', toreal(h._value) == gridval(h, z3.IntVal(0)), hyps=ends(h))
        CTX.prove('the (n-1)-th grid value is hi', gridval(h, n._z - 1) == hi._z, hyps=ends(h))
    explore(path)


def move(log, op):
    rp, pm = start()

    def path():
        h, own = handler(rp, STEPPING, False, 1 if log else 0)
        for r in rep(h):
            CTX.assume(r)
        i, n = h.step_num._z, h.steps._z
        hy = ends(h)
        CTX.assume(toreal(h._value) == gridval(h, i))
        CTX.assume(Implies(i == 0, toreal(h._value) == toreal(h.slo)))
        CTX.assume(Implies(i == n - 1, toreal(h._value) == toreal(h.shi)))
        pre = snap(h)
        refused = False
        try:
            getattr(h, op)()
        except pm.ParamRangeError:
            refused = True
        CTX.cover('%s refused=%s' % (op, refused))
        j = dict(next_step=i + 1, prev_step=i - 1, first_step=z3.IntVal(0), last_step=n - 1)[op]
        if refused:
            CTX.prove('%s: refused only past the end' % op, Or(j < 0, j >= n))
            unchanged(h, pre, 'refused ' + op)
            CTX.prove('refused %s announces nothing' % op, z3.BoolVal(not own.values))
            return
        CTX.prove('%s: succeeds only within the steps' % op, And(j >= 0, j < n))
        CTX.prove('%s: new index' % op, toint(h.step_num) == j)
        CTX.prove('%s: step_index reports it' % op, toint(h.step_index()) == j)
        v = toreal(h._value)
        CTX.prove('%s: exactly lo at index 0' % op, Implies(j == 0, v == toreal(h.slo)))
        CTX.prove('%s: exactly hi at index n-1' % op, Implies(j == n - 1, v == toreal(h.shi)))
        CTX.prove('%s: value is the declared one of the new index' % op, v == gridval(h, j), hyps=hy)
        CTX.prove('%s: the owner sees the value' % op, toreal(getattr(own, h.value_name)) == v)
        unchanged(h, pre, op, skip=('_value', 'step_num'))
    explore(path)


def refuse(status):
    rp, pm = start()

    def path():
        h, own = handler(rp, status, True, 0)
        pre = snap(h)
        for op in ('next_step', 'prev_step', 'first_step', 'last_step', 'step_index'):
            try:
                getattr(h, op)()
                CTX.prove('%s of a non-stepping parameter is refused' % op, z3.BoolVal(False))
            except (pm.ParamError, RuntimeError):
                CTX.prove('%s of a non-stepping parameter is refused' % op, z3.BoolVal(True))
        unchanged(h, pre, 'refused moves')
    explore(path)


TASKS = [('declare lin', lambda: declare(0)), ('declare log', lambda: declare(1)), ('declare step', lambda: declare(0, 'ab', 'step'))]
TASKS += [('declare %s, %s' % (o, g or 'no ends'), lambda l=l, g=g, o=o: declare(l, g, o)) for l, o in ((0, 'linstep'), (1, 'logstep'), (0, 'step')) for g in ('', 'a', 'b')]
for _l in (0, 1):
    for _o in ('next_step', 'prev_step', 'first_step', 'last_step'):
        TASKS.append(('%s %s' % (_o, 'log' if _l else 'lin'), lambda l=_l, o=_o: move(l, o)))
TASKS.append(('not stepping', lambda: (refuse(FIXED), refuse(VARYING))))
