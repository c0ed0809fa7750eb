"""C15 list of labelled maxima: one inductive step of the list invariant and of
the completeness invariant for an arbitrary earlier offer."""
import z3
from z3 import And, Or, Implies, Not, ForAll
from engine import loader
from engine.core import *
from engine.arr import VList, zint
I, R = z3.IntSort(), z3.RealSort()

LEVEL = 'proof'
FILES = ['grid/grid1d.py']
FUNCTIONS = ['grid.grid1d.LabeledMaxList.%s' % f for f in ('__init__', '__len__', '__getitem__', 'update', 'limitRange')]
EXTS = ['_gridquad']
ASSUMPTIONS = ['real arithmetic for floats (values comparable, no nan); numpy.log by its sign and monotonicity lemmas; list by '
               'the sequence model of engine/arr.py', 'capacity at least one, dynamic range at least one (or not given)']
RUN_S = 4
TASK_S = 150
QV, LAB = z3.Function('value', I, R), z3.Function('label', I, I)


class Lab:
    """an arbitrary label"""

    def __init__(self, z):
        self._id = z


def toz_pair(v):
    if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Lab) and kind(v[0]) in ('r', 'i')):
        raise TypeError('entry is not a (value, label) pair')
    c = CTX.fresh('entry', I)
    CTX.assume(And(QV(c) == toreal(v[0]), LAB(c) == v[1]._id))
    return c


class PairList(VList):
    custom = True

    @staticmethod
    def fresh(name):
        f, n = CTX.fresh_fn(name, I, I), CTX.fresh('n_' + name, I)
        CTX.assume(n >= 0)
        return PairList()._sym(SInt(n), lambda j: f(j), 'i', lambda z: (SReal(QV(z)), Lab(LAB(z))), toz_pair)


def same(a, b):
    return And(QV(a) == QV(b), LAB(a) == LAB(b))


def alls(p, n=1):
    v = [z3.Int('j!%d' % i) for i in range(n)]
    return ForAll(v, p(*v))


def inv(l, nmax, D):
    n, f = zint(l._vc_len()), l.fn
    out = [alls(lambda i, j: Implies(And(0 <= i, i < j, j < n), QV(f(i)) >= QV(f(j))), 2)]
    if nmax is not None:
        out.append(n <= zint(nmax))
    if D is not None:
        out.append(alls(lambda i: Implies(And(0 <= i, i < n), QV(f(0)) - QV(f(i)) <= D)))
    return out


def complete(l, q, D, nmax):
    """an offer of value q may be missing"""
    n, f = zint(l._vc_len()), l.fn
    c = [z3.BoolVal(False)]
    if D is not None:
        c.append(And(n > 0, QV(f(0)) - q > D))
    if nmax is not None:
        c.append(And(n == zint(nmax), alls(lambda i: Implies(And(0 <= i, i < n), QV(f(i)) >= q))))
    return Or(*c)


class Hints:
    def __init__(self, o, q, D):
        self.o, self.q, self.D = o, q, D

    def invs(self, lid, v):
        l = self.o.list
        e = v.entry(l)
        if not isinstance(l, VList) or l.items is not None or e is None:
            return
        n, f = zint(l.n), l.fn
        n1, f1 = zint(e[0]), e[1]
        changed = f is not f1
        start = z3.is_int_value(v.k)
        ints = {a: zint(x) for a, x in v.scalars().items() if kind(x) == 'i' and (start or x is not v.env0.get(a))}
        reals = {a: toreal(x) for a, x in v.scalars().items() if kind(x) == 'r'}
        reals = {a: x for a, x in reals.items() if self.q is None or not x.eq(self.q)}
        yield 'shrinks', And(n <= n1, n >= 0)
        for a, z in ints.items():
            yield '%s>=0' % a, z >= 0
            yield '%s<=n' % a, z <= n
            if self.q is not None:
                yield 'ge before ' + a, alls(lambda j: Implies(And(0 <= j, j < z, j < n), QV(f(j)) >= self.q))
                yield 'lt from ' + a, alls(lambda j: Implies(And(z <= j, j < n), QV(f(j)) < self.q))
            for b, y in ints.items():
                if a != b:
                    yield '%s<=%s' % (a, b), z <= y
            yield 'same before ' + a, alls(lambda j: Implies(And(0 <= j, j < z), f(j) == f1(j)))
            yield 'shifted from ' + a, alls(lambda j: Implies(And(z <= j, j < n), f(j) == f1(j + n1 - n)))
            for b, t in reals.items():
                for dn, D in (('D', self.D),):
                    if D is None:
                        continue
                    yield 'kept %s %s %s' % (a, b, dn), alls(lambda j: Implies(And(0 <= j, j < z), t - QV(f(j)) <= D))
                    yield 'gone %s %s %s' % (a, b, dn), alls(lambda j: Implies(And(z <= j, j < z + n1 - n), t - QV(f1(j)) > D))


def mk(m, cap, dyn):
    nmax = SInt(z3.Int('nmax')) if cap else None
    d = SReal(z3.Real('dynrange')) if dyn else None
    if cap:
        CTX.assume(nmax >= 1)
    if dyn:
        CTX.assume(d >= 1)
    o = m.LabeledMaxList(nmax=nmax, dynrange=d)
    D = None
    if dyn:
        from engine.lemmas import LOG
        D = LOG(d._z)
        CTX.assume(D >= 0)          # log of a number >= 1
    return o, nmax, D


def update(cap, dyn):
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        CTX.peel = False
        o, nmax, D = mk(m, cap, dyn)
        if not (isinstance(o.list, VList) and o.list.items == []):
            raise Unsupported('representation of the list')
        l = o.list = PairList.fresh('old')
        n0, f0 = zint(l.n), l.fn
        CTX.assume(inv(l, nmax, D))
        # an arbitrary earlier offer
        G, g = z3.Int('ghost'), z3.Int('ghostpos')
        present = And(0 <= g, g < n0, f0(g) == G)
        CTX.assume(Or(present, complete(l, QV(G), D, nmax)))
        q, lab = SReal(z3.Real('q')), Lab(z3.Int('lab'))
        CTX.roots = [o]
        CTX.loop_hints = [Hints(o, q._z, D)]
        try:
            o.update(q, lab)
        except (IndexError, TypeError, ValueError, AttributeError, NameError, ZeroDivisionError) as e:
            CTX.prove('update does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            return
        CTX.cover('updated')
        l = o.list
        if not isinstance(l, VList) or l.items is not None and l.items:
            raise Unsupported('representation of the list')
        n, f = zint(l._vc_len()), l.fn
        i, j = CTX.fresh('i', I), CTX.fresh('j', I)
        CTX.prove('sorted from largest to smallest', Implies(And(0 <= i, i < j, j < n), QV(f(i)) >= QV(f(j))))
        if nmax is not None:
            CTX.prove('never longer than the capacity', n <= nmax._z)
        if D is not None:
            CTX.prove('every entry is within the allowed range of the largest', Implies(And(0 <= i, i < n), QV(f(0)) - QV(f(i)) <= D))
        new = lambda a: And(QV(a) == q._z, LAB(a) == lab._id)
        CTX.prove('every entry is the new pair or an old entry',
                  Implies(And(0 <= i, i < n), Or(new(f(i)), And(i < n0, same(f(i), f0(i))), And(1 <= i, i <= n0, same(f(i), f0(i - 1))))))
        # the new pair sits where it belongs or is rightly missing
        p = z3.Int('p!')
        CTX.prove('the new pair is listed unless the list is full of entries at least as large or it is out of range',
                  Or(z3.Exists([p], And(0 <= p, p < n, new(f(p)))), complete(l, q._z, D, nmax)))
        CTX.prove('an earlier offer is listed unless the list is full of entries at least as large or it is out of range',
                  Or(And(present, Or(And(g < n, same(f(g), G)), And(g + 1 < n, same(f(g + 1), G)))), complete(l, QV(G), D, nmax)))
    explore(path)


def start():
    def path():
        m = loader.fresh_import('inference.grid.grid1d')
        o, nmax, D = mk(m, True, True)
        CTX.cover('new list')
        CTX.prove('a new list is empty', toint(o.__len__()) == 0)
        l = o.list = PairList.fresh('some')
        i = SInt(z3.Int('i'))
        CTX.assume(And(0 <= i._z, i._z < zint(l.n)))
        v = o[i]
        CTX.prove('indexing gives the entry', And(toreal(v[0]) == QV(l.fn(i._z)), v[1]._id == LAB(l.fn(i._z))))
        CTX.prove('the length is the number of entries', toint(type(o).__len__(o)) == zint(l.n))
    explore(path)


def limit():
    """limitRange: exactly the entries within the range stay, in order"""
    def path():
        from engine.lemmas import LOG
        m = loader.fresh_import('inference.grid.grid1d')
        CTX.peel = False
        o, nmax, D0 = mk(m, True, True)
        l = o.list = PairList.fresh('old')
        n0, f0 = zint(l.n), l.fn
        CTX.assume(inv(l, nmax, D0))
        d = SReal(z3.Real('newrange'))
        D = LOG(d._z)
        CTX.assume([d >= 1, D >= 0])
        CTX.roots = [o]
        CTX.loop_hints = [Hints(o, None, D)]
        try:
            o.limitRange(d)
        except (IndexError, TypeError, ValueError, AttributeError, NameError) as e:
            CTX.prove('limitRange does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            return
        CTX.cover('limited')
        l = o.list
        n, f = zint(l._vc_len()), l.fn
        i = CTX.fresh('i', I)
        CTX.prove('entries keep their place', Implies(And(0 <= i, i < n), And(n <= n0, same(f(i), f0(i)))))
        CTX.prove('every remaining entry is within the range', Implies(And(0 <= i, i < n), QV(f0(0)) - QV(f(i)) <= D))
        CTX.prove('only entries out of range are removed', Implies(And(n <= i, i < n0), QV(f0(0)) - QV(f0(i)) > D))
        CTX.prove('a list that has entries keeps its largest', Implies(n0 > 0, n > 0))
    explore(path)


TASKS = [('update cap=%s range=%s' % (c, d), lambda c=c, d=d: update(c, d)) for c in (True, False) for d in (True, False)] + \
        [('new list', start), ('limit range', limit)]
