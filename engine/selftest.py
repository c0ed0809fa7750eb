"""Self test of the VC engine: true contracts are discharged, false ones are
refuted, on small functions run through the same loader, loop rule and solver
calls as the real code.  Used as setup_cmd."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3
from engine import loader, core
from engine.core import *


def absdiff(a, b):
    if a > b:
        return a - b
    return b - a


PROGRAMS = '''
def nested(n, m, a):
    s = 0.
    for i in range(n):
        for j in range(m):
            s = s + a
    return s

def flip(n, x):
    s = 1.
    for i in range(n):
        s = x - s
    return s

def swap(n, a):
    for i in range(n):
        t = a[0]
        a[0] = a[1]
        a[1] = t
    return a

def restore(n, a):
    for i in range(n):
        t = a[i]
        a[i] = t + 1.
        a[i] = t
    return a

def last(n, a):
    for i in range(n):
        a[2] = a[2] + a[i]
    return a[2]

def shift(n, a):
    for i in range(n - 1):
        a[i + 1] = a[i]
    return a

def early(n, a):
    for i in range(n):
        if a[i] > 0.:
            return i
    return n

def both(n, a):
    for i in range(n):
        a[i, i] = 1.
        a[i, n] = 2.
    return a
'''


def programs():
    """loop rule: each (name, true?, claim) must be discharged exactly when true"""
    from engine.arr import NArr
    ns = loader.load_text(PROGRAMS)
    N = 0

    def expect(claims):
        nonlocal N
        CTX.reset_task()
        done = {}

        def path():
            for nm, truth, c in claims():
                CTX.prove(nm, c)
                done[nm] = truth
        explore(path)
        for nm, truth in done.items():
            ok = all(o.status == 'discharged' for o in CTX.obligs if o.name == nm)
            assert ok == truth, (nm, truth, [o.asdict() for o in CTX.obligs if o.name == nm])
            N += truth
        bad = [o.asdict() for o in CTX.obligs if o.name.startswith('loop') and o.status != 'discharged']
        assert not bad, bad
        assert done
    R_ = z3.ToReal

    def arr(n):
        a = NArr.fresh('a', (SInt(n),))
        return a, a.store.cur

    def size():
        n = integer('n')._z
        CTX.assume(n >= 3)
        return n

    def t_nested():
        n, m, a = size(), size(), real('a')
        r = toreal(ns['nested'](SInt(n), SInt(m), a))
        yield 'n m a', True, r == R_(n) * R_(m) * a._z
        yield 'm a (false)', False, r == R_(m) * a._z
        r2 = toreal(ns['nested'](SInt(n), SInt(m), 2 * a))
        yield 'second call', True, r2 == 2 * R_(n) * R_(m) * a._z
        yield 'second call like the first (false)', False, r2 == r

    def t_flip():
        n, x = size(), real('x')
        r = toreal(ns['flip'](SInt(n), x))
        yield 'flip: unchanged (false)', False, r == 1
        yield 'flip: flipped once (false)', False, r == x._z - 1

    def t_cells():
        n = size()
        a, a0 = arr(n)
        ns['swap'](SInt(n), a)
        yield 'swap: other cells', True, a.store.cur((z3.IntVal(2),)) == a0((z3.IntVal(2),))
        yield 'swap: swapped cells (false)', False, a.store.cur((z3.IntVal(0),)) == a0((z3.IntVal(0),))
        j = CTX.fresh('j', z3.IntSort())
        CTX.assume(z3.And(j >= 0, j < n))
        b, b0 = arr(n)
        ns['restore'](SInt(n), b)
        yield 'restore', True, b.store.cur((j,)) == b0((j,))
        c, c0 = arr(n)
        r = toreal(ns['last'](SInt(n), c))
        yield 'last: reads its own cell (false)', False, r == c0((z3.IntVal(2),))
        yield 'last: other cells', True, z3.Implies(j != 2, c.store.cur((j,)) == c0((j,)))
        d, d0 = arr(n)
        ns['shift'](SInt(n), d)
        yield 'shift: one step (false)', False, z3.Implies(j > 0, d.store.cur((j,)) == d0((j - 1,)))
        yield 'shift: none (false)', False, d.store.cur((j,)) == d0((j,))

    def t_early():
        n = size()
        a, a0 = arr(n)
        r = toint(ns['early'](SInt(n), a))
        yield 'early: in range', True, z3.And(0 <= r, r <= n)
        yield 'early: found', True, z3.Implies(r < n, a0((r,)) > 0)
        yield 'early: never (false)', False, r == n
        yield 'early: first (false)', False, r == 0

    def t_both():
        n = size()
        a = NArr.fresh('a', (SInt(n), SInt(n + 1)))
        a0 = a.store.cur
        ns['both'](SInt(n), a)
        p, q = CTX.fresh('p', z3.IntSort()), CTX.fresh('q', z3.IntSort())
        CTX.assume(z3.And(0 <= p, p < n, 0 <= q, q <= n))
        v = a.store.cur((p, q))
        yield 'both', True, v == z3.If(p == q, z3.RealVal(1), z3.If(q == n, z3.RealVal(2), a0((p, q))))
        yield 'both: kept (false)', False, v == a0((p, q))
    for t in (t_nested, t_flip, t_cells, t_early, t_both):
        expect(t)
    return N


def main():
    CTX.reset_task()

    def good():
        a, b = real('a'), real('b')
        r = absdiff(a, b)
        CTX.prove('nonnegative', toreal(r) >= 0)
        CTX.prove('symmetric', toreal(r) == toreal(absdiff(b, a)))
    explore(good)
    assert CTX.npaths >= 2, CTX.npaths
    assert all(o.status == 'discharged' for o in CTX.obligs), [o.asdict() for o in CTX.obligs]
    n = len(CTX.obligs)
    CTX.reset_task()

    def bad():
        a, b = real('a'), real('b')
        CTX.prove('positive (false)', toreal(absdiff(a, b)) > 0)
    explore(bad)
    assert any(o.status == 'refuted' for o in CTX.obligs)
    # values invented by an iteration must not be taken for functions of the loop index
    from engine.arr import mkrange
    from engine import loops
    src = '''
def total(n, pick):
    s = 0.0
    for i in range(n):
        s = s + pick()
    return s
'''
    CTX.reset_task()
    ns = loader.load_text(src)
    if ns:
        def nondet():
            m = integer('m')
            CTX.assume(m >= 1)
            s = ns['total'](m, lambda: real('pick', False))
            CTX.prove('sum is a multiple of one pick (false)', toreal(s) == z3.ToReal(m._z) * z3.Real('pick'))
            s = ns['total'](m, lambda: 2.0)
            CTX.prove('sum of m twos', toreal(s) == 2 * z3.ToReal(m._z))
        explore(nondet)
        assert [o.status == 'discharged' for o in CTX.obligs if 'loop' not in o.name] == [False, True], [o.asdict() for o in CTX.obligs]
    n += programs()
    print('selftest: %d discharged, false contract refuted' % n)


if __name__ == '__main__':
    main()
