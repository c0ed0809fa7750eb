"""C05: zig-zag traversal.  Contract of next_step for any number of stepping
parameters (relational post-state), contract of reset_steps, step_nums and
step_shape; counting lemmas (mixed radix counter) over that contract."""
import z3
from z3 import And, Or, Implies, Not, ForAll, Int, Function, IntSort
from engine import loader
from engine.core import *
from engine.heap import *
from props.pielib import *
from props.pieheap import world, PRef, NEXTD, PREVD, enums

LEVEL = 'proof'
FILES = ['pie/inference_base.py', 'pie/realparam.py', 'pie/param.py']
FUNCTIONS = ['pie.inference_base.Inference.' + f for f in ('next_step', 'reset_steps', 'step_nums', 'step_shape')] + \
    ['pie.param.reverse_direction']
EXTS = ['_obsinfo']
ASSUMPTIONS = ['handler moves: contracts proved in C04', 'role lists well formed: invariant proved in C01',
               'finite pigeonhole: a counter going from 0 to the product minus one by ones, in bijection with the index tuples, takes each tuple once '
               '(bijection and counting steps are discharged as lemmas)']
RUN_S = 6
TASK_S = 120


def blocked(w, z):
    d, k, n = w.info.val0((z,)), w.heap.old('step_num', z), w.heap.old('steps', z)
    return z3.If(d == NEXTD, k == n - 1, k == 0)


class Hint:
    """loop invariant of next_step: the parameters passed so far were all at
    the end they are heading to, and the last parameter is never passed"""

    def __init__(self, w):
        self.w = w

    def invs(self, lid, view):
        w = self.w
        if 'next_step' not in lid:
            return
        n, f, p = w.old[STEPPING]
        i = Int('i!b')
        k = toint(view.k)
        yield 'passed parameters were blocked', ForAll([i], Implies(And(0 <= i, i < k), blocked(w, f(i))), patterns=[f(i)])
        yield 'last parameter not passed', k < n


def advance():
    loader.fresh_import('inference.pie.inference_base')
    ib = get('pie.inference_base')
    sm = get('pie.signalmodel')

    def path():
        CTX.prove('enum values as used by the contracts', z3.BoolVal(enums()))
        w = world(ib)
        n, f, p = w.old[STEPPING]
        CTX.assume(n >= 1)
        CTX.loop_hints.append(Hint(w))
        stopped = False
        try:
            w.inf.next_step()
        except sm.StopStepping:
            stopped = True
        except Exception as e:
            CTX.prove('next_step raises nothing but the stop signal', z3.BoolVal(False))
            return
        CTX.cover('stopped=%s' % stopped)
        y, i, b = (CTX.fresh(s, IntSort()) for s in ('any', 'i', 'b'))
        st = lambda z: w.heap.old('status', z) == STEPPING
        idx0, idx = lambda z: w.heap.old('step_num', z), lambda z: w.heap.at('step_num', z)
        d0, d = lambda z: w.info.val0((z,)), lambda z: w.info.val.cur((z,))
        CTX.prove('roles and sizes untouched', And(w.heap.at('status', y) == w.heap.old('status', y), w.heap.at('steps', y) == w.heap.old('steps', y),
                                                   w.info.pres.cur((y,)) == w.info.pres0((y,))))
        CTX.prove('list of stepping parameters untouched', And(zint(w.inf.stepping_params.n) == n,
                                                               Implies(And(0 <= i, i < n), w.inf.stepping_params.fn(i) == f(i))))
        if stopped:
            CTX.prove('stops only when every parameter is at the end it heads to', Implies(And(0 <= i, i < n), blocked(w, f(i))))
            CTX.prove('stop: every stepping parameter back at its first step', Implies(st(y), idx(y) == 0))
            CTX.prove('stop: every stepping parameter heads forward', Implies(st(y), d(y) == NEXTD))
            return
        # the first parameter not at its end moves one step in its direction; those before it turn round
        CTX.assume(And(0 <= b, b < n, ForAll([i], Implies(And(0 <= i, i < b), blocked(w, f(i))), patterns=[f(i)])))
        CTX.assume(Not(blocked(w, f(b))))
        z = f(b)
        CTX.prove('advance: exactly the first parameter not at its end moves, one step in its direction',
                  Implies(st(y), idx(y) == z3.If(y == z, z3.If(d0(y) == NEXTD, idx0(y) + 1, idx0(y) - 1), idx0(y))))
        CTX.prove('advance: earlier parameters turn round, the others keep their direction',
                  Implies(st(y), d(y) == z3.If(p(y) < b, z3.If(d0(y) == NEXTD, PREVD, NEXTD), d0(y))))
    explore(path)


def exists_unblocked():
    """a call that returns normally found a parameter not at its end"""
    loader.fresh_import('inference.pie.inference_base')
    ib = get('pie.inference_base')
    sm = get('pie.signalmodel')

    def path():
        w = world(ib)
        n, f, p = w.old[STEPPING]
        CTX.assume(n >= 1)
        i = Int('i!a')
        CTX.assume(ForAll([i], Implies(And(0 <= i, i < n), blocked(w, f(i))), patterns=[f(i)]))
        CTX.loop_hints.append(Hint(w))
        try:
            w.inf.next_step()
            CTX.prove('with every parameter at its end the stop signal is raised', z3.BoolVal(False))
        except sm.StopStepping:
            CTX.prove('with every parameter at its end the stop signal is raised', z3.BoolVal(True))
    explore(path)


def reset():
    loader.fresh_import('inference.pie.inference_base')
    ib = get('pie.inference_base')

    def path():
        w = world(ib)
        w.inf.reset_steps()
        CTX.cover('reset')
        y = CTX.fresh('any', IntSort())
        st = w.heap.old('status', y) == STEPPING
        CTX.prove('reset: first step', Implies(st, w.heap.at('step_num', y) == 0))
        CTX.prove('reset: heading forward', Implies(st, w.info.val.cur((y,)) == NEXTD))
        CTX.prove('reset: others untouched', Implies(Not(st), And(w.heap.at('step_num', y) == w.heap.old('step_num', y),
                                                                 w.info.pres.cur((y,)) == w.info.pres0((y,)))))
    explore(path)


def report(name):
    loader.fresh_import('inference.pie.inference_base')
    ib = get('pie.inference_base')

    def path():
        w = world(ib)
        n, f, p = w.old[STEPPING]
        r = getattr(w.inf, name)()
        CTX.cover('report')
        i = CTX.fresh('i', IntSort())
        CTX.assume(And(0 <= i, i < n))
        attr = dict(step_nums='step_num', step_shape='steps')[name]
        CTX.prove(name + ': one entry per stepping parameter', zint(b_len(r)) == n)
        CTX.prove(name + ': entry i belongs to the i-th declared', toint(r[SInt(i)]) == w.heap.old(attr, f(i)))
        CTX.prove(name + ': nothing changed', And(w.heap.at('step_num', f(i)) == w.heap.old('step_num', f(i)),
                                                  w.info.val.cur((f(i),)) == w.info.val0((f(i),))))
    explore(path)


from engine.loader import b_len
from engine.arr import zint


def counting():
    """mixed radix counter: Q_i = p_i + N_i Q_(i+1), Q_m = 0, p_i = progress of
    parameter i in its direction; invariant: direction_i = parity of Q_(i+1)."""
    I = IntSort()
    p, p2, N, Q, Q2, k, k2, d, d2 = (Function(s, I, I) for s in ("p", "p'", 'N', 'Q', "Q'", 'k', "k'", 'd', "d'"))
    i, b, m = z3.Ints('i b m')

    def path():
        prog = lambda kk, dd, j: z3.If(dd(j) == NEXTD, kk(j), N(j) - 1 - kk(j))
        defs = lambda QQ, kk, dd, j: QQ(j) == prog(kk, dd, j) + N(j) * QQ(j + 1)
        rng = lambda j: And(N(j) >= 2, 0 <= k(j), k(j) < N(j), Or(d(j) == 0, d(j) == 1))
        par = lambda QQ, dd, j: dd(j) == QQ(j + 1) % 2
        blk = lambda j: z3.If(d(j) == NEXTD, k(j) == N(j) - 1, k(j) == 0)
        # post state of next_step at parameter j (contract 'advance')
        post = lambda j: And(k2(j) == z3.If(j == b, z3.If(d(j) == NEXTD, k(j) + 1, k(j) - 1), k(j)),
                             d2(j) == z3.If(j < b, 1 - d(j), d(j)))
        base = [0 <= i, i < m, 0 <= b, b < m]
        CTX.prove('counter start: all at first step, forward: progress 0 and Q=0 keeps (induction step)',
                  Implies(And(k(i) == 0, d(i) == NEXTD, Q(i + 1) == 0, defs(Q, k, d, i)), And(Q(i) == 0, par(Q, d, i))))
        CTX.prove('counter: parameters after the moved one keep Q', Implies(And(rng(i), post(i), i > b, Q2(i + 1) == Q(i + 1), defs(Q, k, d, i), defs(Q2, k2, d2, i)),
                  Q2(i) == Q(i)), hyps=base)
        CTX.prove('counter: the moved parameter adds one', Implies(And(rng(i), post(i), i == b, Not(blk(i)), Q2(i + 1) == Q(i + 1), defs(Q, k, d, i), defs(Q2, k2, d2, i)),
                  And(Q2(i) == Q(i) + 1, k2(i) >= 0, k2(i) < N(i))), hyps=base)
        CTX.prove('counter: turned parameters carry', Implies(And(rng(i), post(i), i < b, blk(i), Q2(i + 1) == Q(i + 1) + 1, defs(Q, k, d, i), defs(Q2, k2, d2, i)),
                  Q2(i) == Q(i) + 1), hyps=base)
        CTX.prove('parity of the counter gives the directions again',
                  Implies(And(rng(i), post(i), par(Q, d, i), Q2(i + 1) == z3.If(i + 1 <= b, Q(i + 1) + 1, Q(i + 1))), par(Q2, d2, i)), hyps=base)
        # tuple <-> counter is one-to-one
        CTX.prove('the index tuple determines the counter (induction step)',
                  Implies(And(rng(i), k2(i) == k(i), Q2(i + 1) == Q(i + 1), par(Q, d, i), par(Q2, d2, i), defs(Q, k, d, i), defs(Q2, k2, d2, i)), Q2(i) == Q(i)))
        CTX.prove('the counter determines the index tuple (induction step)',
                  Implies(And(N(i) >= 2, 0 <= p(i), p(i) < N(i), 0 <= p2(i), p2(i) < N(i), Q(i) == p(i) + N(i) * Q(i + 1), Q2(i) == p2(i) + N(i) * Q2(i + 1),
                              Q(i) == Q2(i)), And(p(i) == p2(i), Q(i + 1) == Q2(i + 1))), hyps=mod_hyps(p(i), p2(i), N(i), Q(i + 1), Q2(i + 1)))
        T = Function('T', I, I)      # T(i) = product of N over j >= i
        CTX.prove('all at their ends exactly at the last count (induction step)',
                  Implies(And(rng(i), blk(i), T(i) == N(i) * T(i + 1), Q(i + 1) + 1 == T(i + 1), defs(Q, k, d, i)), Q(i) + 1 == T(i)))
        CTX.prove('count stays below the product (induction step)',
                  Implies(And(rng(i), T(i) == N(i) * T(i + 1), Q(i + 1) + 1 <= T(i + 1), defs(Q, k, d, i)), Q(i) + 1 <= T(i)),
                  hyps=[N(i) * (T(i + 1) - Q(i + 1) - 1) >= 0] if True else [])
        CTX.prove('product of a nonnegative number and a size is nonnegative', Implies(And(N(i) >= 2, T(i + 1) - Q(i + 1) - 1 >= 0), N(i) * (T(i + 1) - Q(i + 1) - 1) >= 0))
    explore(path)


def mod_hyps(p, p2, N, q, q2):
    """distinct quotients put the sums at least N apart"""
    return [Implies(q >= q2 + 1, N * q >= N * q2 + N), Implies(q2 >= q + 1, N * q2 >= N * q + N)]


def mod_lemma():
    N, q, q2 = z3.Ints('N q q2')

    def path():
        CTX.prove('multiples of distinct quotients are at least one size apart', Implies(And(N >= 2, q >= q2 + 1), N * (q - q2 - 1) >= 0))
    explore(path)


TASKS = [('next_step', advance), ('next_step at the end', exists_unblocked), ('reset_steps', reset),
         ('step_nums', lambda: report('step_nums')), ('step_shape', lambda: report('step_shape')), ('counting lemmas', counting),
         ('multiples', mod_lemma)]
