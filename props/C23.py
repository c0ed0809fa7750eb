"""C23 LogSummer: abstraction exp(logSum) = running sum, representation
invariant preserved by every operation, status() = documented functions."""
import z3
from z3 import And, Or, Implies, Not, ToReal
from engine import loader
from engine.core import *
from engine.lemmas import EXP, LOG

LEVEL = 'proof'
FILES = ['utils/numutils.py']
FUNCTIONS = ['utils.numutils.LogSummer.' + f for f in ('__init__', '__add__', 'add_zero', 'status')]
EXTS = []
ASSUMPTIONS = ['floats as real numbers; overflow of exp excluded by proving every exp() argument <= 0',
               'numpy exp/log: real exponential and logarithm (axioms in engine/lemmas.py)']
RUN_S = 4
TASK_S = 40
E40 = EXP(z3.RealVal(-40))


def mk(m, dosig, empty):
    s = m.LogSummer(dosig=dosig)
    if not empty:
        s.n = integer('n')
        CTX.assume(s.n >= 1)
        s.logSum = real('logSum')
        if dosig:
            s.sigSum = real('sigSum')
    return s


def exps_nonpositive(tag):
    """no overflow: every EXP evaluated by the code so far has argument <= 0"""
    for a in CTX.exp_args:
        CTX.prove('no exp() of a positive number (%s)' % tag, a <= 0)


def record_exp(m):
    real_exp = m.exp
    CTX.exp_args = []

    def exp_(x):
        CTX.exp_args.append(toreal(x))
        return real_exp(x)
    m.exp = exp_


def step(v, old, new, what):
    """exp(new) = exp(old)+exp(v) up to relative e^-40"""
    x = EXP(v)
    S = x if old is None else EXP(old) + x
    h = [] if old is None else hints(v, old)
    # exact unless the smaller term is below e^-40 of the larger one
    CTX.prove('%s: not above the true sum' % what, EXP(new) <= S, hyps=h)
    CTX.prove('%s: not below by more than a factor 1+exp(-40)' % what, S <= EXP(new) * (1 + E40), hyps=h)
    if old is None:
        CTX.prove('%s: first term exact' % what, new == v)
    else:
        CTX.prove('%s: exact when the terms are within exp(40)' % what,
                  Implies(And(v - old > -40, old - v > -40), EXP(new) == S),
                  hyps=h)


def hints(v, old):
    """instances of exp(a-b) exp(b) = exp(a) and exp(b + log(1+y)) = exp(b)(1+y), y > 0"""
    extra = []
    for d in (v - old, old - v):
        extra += [EXP(old + LOG(1 + EXP(d))) == EXP(old) * (1 + EXP(d)),
                  EXP(v + LOG(1 + EXP(d))) == EXP(v) * (1 + EXP(d))]
    return extra + [EXP(v - old) * EXP(old) == EXP(v), EXP(old - v) * EXP(v) == EXP(old),
            Implies(v - old <= -40, EXP(v - old) <= E40), Implies(old - v <= -40, EXP(old - v) <= E40),
            E40 > 0]


def add(dosig, empty):
    m = loader.fresh_import('inference.utils.numutils')

    def path():
        record_exp(m)
        s = mk(m, dosig, empty)
        n0 = toint(s.n)
        o1 = None if empty else s.logSum._z
        o2 = None if empty or not dosig else s.sigSum._z
        v = real('val')
        r = s + v
        CTX.cover('add')
        CTX.prove('returns the summer itself', z3.BoolVal(r is s))
        CTX.prove('count goes up by one', toint(s.n) == n0 + 1)
        step(v._z, o1, toreal(s.logSum), 'log sum')
        if dosig:
            step(2 * v._z, o2, toreal(s.sigSum), 'log sum of squares')
        exps_nonpositive('add')
    explore(path)


def zero():
    m = loader.fresh_import('inference.utils.numutils')

    def path():
        s = mk(m, True, False)
        a, b, n = s.logSum, s.sigSum, s.n
        s.add_zero()
        CTX.prove('add_zero: count goes up by one', toint(s.n) == n._z + 1)
        CTX.prove('add_zero: sums unchanged', And(toreal(s.logSum) == a._z, toreal(s.sigSum) == b._z))
        s = m.LogSummer()
        s.add_zero()
        CTX.prove('add_zero on empty', z3.BoolVal(s.n == 1 and s.logSum is None))
        try:
            s.status()
            CTX.prove('status of a zero sum is refused', z3.BoolVal(False))
        except ValueError:
            CTX.prove('status of a zero sum is refused', z3.BoolVal(True))
        n1, l1 = integer('n1'), real('l1')
        CTX.assume(n1 >= 1)
        s = m.LogSummer(start=(n1, l1))
        CTX.prove('start values are taken over', And(toint(s.n) == n1._z, toreal(s.logSum) == l1._z))
    explore(path)


def status(dosig):
    m = loader.fresh_import('inference.utils.numutils')

    def path():
        record_exp(m)
        s = mk(m, dosig, False)
        n, l = s.n._z, s.logSum._z
        ln = LOG(ToReal(n))
        if dosig:
            q = s.sigSum._z
            dif = 2 * (l - ln) - (q - ln)
            CTX.assume(dif < 0)         # positive variance
            CTX.assume(EXP(LOG(1 - EXP(dif))) == 1 - EXP(dif))
            CTX.assume(EXP(dif) < 1)
        out = s.status()
        CTX.cover('status')
        CTX.prove('status does not change the sums', And(toint(s.n) == n, toreal(s.logSum) == l))
        CTX.prove('reported count', toint(out[0]) == n)
        CTX.prove('reported log sum', toreal(out[1]) == l)
        k = 3 if dosig else 2
        CTX.prove('reported tuple length', z3.BoolVal(len(out) == (5 if dosig else 3)))
        CTX.prove('log mean = log sum - log n', toreal(out[k]) == l - ln)
        if dosig:
            CTX.prove('reported log sum of squares', toreal(out[2]) == q)
            # 2 lsig = l2 + log(1-exp(dif)); exact above the cut, within e^-40 below
            two = 2 * toreal(out[4])
            CTX.prove('log sigma: exp(2 lsig) = E[x^2] - mean^2',
                      Implies(dif > -40, two == (q - ln) + LOG(1 - EXP(dif))))
            CTX.prove('log sigma below the cut: mean^2 negligible', Implies(dif <= -40, two == q - ln))
        exps_nonpositive('status')
    explore(path)


def history():
    """lemma: after any history the result is within (1+e^-40)^k of the sum"""
    def path():
        X, S, x, v, P, e = [z3.Real(c) for c in 'X S x v P e'.split()]
        pre = [e > 0, P >= 1, X > 0, v > 0, X <= S, S <= X * P,          # invariant
               x <= X + v, X + v <= x * (1 + e), x > 0]                   # contract of __add__
        CTX.prove('history invariant: lower', x <= S + v, hyps=pre)
        CTX.prove('history invariant: upper lemma', S + v <= (X + v) * P, hyps=pre)
        CTX.prove('history invariant: upper', S + v <= x * (P * (1 + e)),
                  hyps=pre + [S + v <= (X + v) * P, (X + v) * P <= (x * (1 + e)) * P])
        CTX.prove('history lemma: product', (X + v) * P <= (x * (1 + e)) * P, hyps=pre)
        CTX.cover('history')
    explore(path)


TASKS = [('add to empty', lambda: add(None, True)), ('add', lambda: add(None, False)),
         ('add with squares, empty', lambda: add(1, True)), ('add with squares', lambda: add(1, False)),
         ('add_zero and start', zero), ('status', lambda: status(None)),
         ('status with sigma', lambda: status(1)), ('history', history)]
