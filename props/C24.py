"""C24 steppers: contracts on utils.numutils.{lin,log}[_enum]_stepper"""
import z3
from engine import loader
from engine.core import *
from engine.lemmas import EXP, LOG
from engine.arr import zint

LEVEL = 'proof'
FILES = ['utils/numutils.py']
FUNCTIONS = ['utils.numutils.' + f for f in ('lin_stepper', 'lin_enum_stepper', 'log_stepper', 'log_enum_stepper')]
EXTS = []
ASSUMPTIONS = ['floats as real numbers (rounding not modelled in the proof)',
               'numpy exp/log: real exponential and logarithm (axioms in engine/lemmas.py)',
               'generators are executed eagerly (laziness dropped)']
RUN_S = 4
TASK_S = 60


def run(log, enum):
    m = loader.fresh_import('inference.utils.numutils')
    f = getattr(m, ('log' if log else 'lin') + ('_enum' if enum else '') + '_stepper')

    def path():
        CTX.peel = True
        lo, hi, n = real('lo'), real('hi'), integer('n')
        CTX.assume(n >= 2)
        if log:
            CTX.assume(And(lo._z > 0, hi._z > 0))
        seq = f(lo, hi, n)
        CTX.cover('returns')
        if enum:
            idx, seq = seq[0], seq[1]
            CTX.prove('n-indices', toint(loader.b_len(idx)) == n._z)
        CTX.prove('yields exactly n values', toint(loader.b_len(seq)) == n._z)
        i = integer('i')
        CTX.assume(And(i._z >= 0, i._z < n._z))
        v = seq[i]._z
        if enum:
            CTX.prove('value i is paired with index i', toint(idx[i]) == i._z)
        CTX.prove('first value is lo', Implies(i._z == 0, v == lo._z))
        CTX.prove('last value is hi', Implies(i._z == n._z - 1, v == hi._z))
        t = ToReal(i._z) / ToReal(n._z - 1)
        if not log:
            CTX.prove('value i is lo + i (hi-lo)/(n-1)', v == lo._z + t * (hi._z - lo._z))
            CTX.prove('within the ends', And(Implies(lo._z <= hi._z, And(lo._z <= v, v <= hi._z)),
                                             Implies(lo._z >= hi._z, And(lo._z >= v, v >= hi._z))))
        else:
            L = LOG(hi._z / lo._z)
            d = L / ToReal(n._z - 1)
            CTX.assume(EXP(L) == hi._z / lo._z)
            CTX.prove('value i is lo (hi/lo)^(i/(n-1))', v == lo._z * EXP(d * ToReal(i._z)))
            # lemma steps: 0 <= i d <= L
            e = z3.Real('e')
            CTX.assume(e == EXP(d * ToReal(i._z)))
            CTX.prove('lemma: exponent between 0 and log(hi/lo)',
                      And(Implies(L >= 0, And(0 <= d * ToReal(i._z), d * ToReal(i._z) <= L)),
                          Implies(L <= 0, And(0 >= d * ToReal(i._z), d * ToReal(i._z) >= L))))
            CTX.prove('within the ends', And(Implies(lo._z <= hi._z, And(lo._z <= v, v <= hi._z)),
                                             Implies(lo._z >= hi._z, And(lo._z >= v, v >= hi._z))),
                      hyps=[v == lo._z * e,
                            Implies(L >= 0, And(1 <= e, e <= EXP(L))),
                            Implies(L <= 0, And(1 >= e, e >= EXP(L)))])
    explore(path)


from z3 import And, Or, Implies, Not, ToReal
TASKS = [('lin_stepper', lambda: run(0, 0)), ('lin_enum_stepper', lambda: run(0, 1)),
         ('log_stepper', lambda: run(1, 0)), ('log_enum_stepper', lambda: run(1, 1))]
