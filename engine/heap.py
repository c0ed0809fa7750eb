"""Unbounded collections of objects: objects are identified by integers, their
attributes are maps from identity to value; lists of objects are symbolic
sequences of identities with a position function (injective lists)."""
import z3
from . import loops
from .core import CTX, SInt, SBool, SReal, Unsupported, toint, tobool, kind
from .arr import VList, Store, zint, cint, unz, toz, SORT

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Heap:
    """attribute maps  name -> Store(identity)"""
    _vc_state = True

    def __init__(self, **attrs):
        for n, k in attrs.items():
            f = CTX.fresh_fn('at_' + n, I, SORT[k])
            setattr(self, n, Store(k, (lambda j, f=f: f(*j)), n))
            setattr(self, n + '0', self.__dict__[n].cur)   # entry contents (function)

    def maps(self):
        return {n: s for n, s in self.__dict__.items() if isinstance(s, Store)}

    def at(self, name, z):
        return self.__dict__[name].cur((z,))

    def old(self, name, z):
        return self.__dict__[name + '0']((z,))


class HObj:
    """reference to an object of the heap"""
    _vc_state = True

    def __init__(self, heap, z):
        object.__setattr__(self, '_heap', heap)
        object.__setattr__(self, '_id', z)

    def _is(self, o):
        return SBool(self._id == o._id) if isinstance(o, HObj) else False

    def __eq__(self, o):
        return self._is(o)

    def __ne__(self, o):
        return SBool(self._id != o._id) if isinstance(o, HObj) else True

    def __hash__(self):
        raise Unsupported('native hashing of a symbolic reference')

    def __getattr__(self, n):
        s = object.__getattribute__(self, '_heap').__dict__.get(n)
        if isinstance(s, Store):
            return unz(z3.simplify(s.cur((self._id,))), s.k)
        if n.startswith('_'):
            raise AttributeError(n)
        raise Unsupported('attribute %s of a symbolic reference' % n)

    def __setattr__(self, n, v):
        s = self._heap.__dict__.get(n)
        if not isinstance(s, Store) or kind(v) is None:
            raise Unsupported('attribute %s set on a symbolic reference' % n)
        s.write((self._id,), v)


class IdList(VList):
    """list of references without duplicates; pos(id) = index"""

    @staticmethod
    def make(heap, name, n, cls=HObj):
        f = CTX.fresh_fn('L_' + name, I, I)
        p = CTX.fresh_fn('P_' + name, I, I)
        l = IdList()
        l.heap, l.cls = heap, cls
        l._sym(SInt(n), lambda j: f(j), 'i', lambda z: cls(heap, z), lambda v: v._id)
        l.pos = lambda x: p(x)
        j = z3.Int('j!' + name)
        l.axioms = [n >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), p(f(j)) == j), patterns=[f(j)])]
        l.sym_f, l.sym_p = f, p
        return l

    def has(self, x):
        q = self.pos(x)
        return z3.And(q >= 0, q < zint(self.n), self.fn(q) == x)

    def append(self, v):
        if not isinstance(v, HObj):
            raise Unsupported('foreign object appended')
        n, old, x = zint(self.n), self.pos, v._id
        VList.append(self, v)
        self.pos = lambda y: z3.If(y == x, n, old(y))

    def remove(self, v):
        if not isinstance(v, HObj):
            raise ValueError('list.remove(x): x not in list')
        if not CTX.branch(self.has(v._id)):
            raise ValueError('list.remove(x): x not in list')
        self._del(self.pos(v._id))

    def _del(self, p):
        n, f, q = zint(self.n), self.fn, self.pos
        self.fn = lambda j: z3.If(j < p, f(j), f(j + 1))
        self.pos = lambda y: z3.If(q(y) > p, q(y) - 1, q(y))
        self.n = SInt(z3.simplify(n - 1))

    def pop(self, i=-1):
        i = zint(self._idx(i))
        v = self.wrap(self.fn(i))
        self._del(i)
        return v

    def insert(self, i, v):
        VList.insert(self, i, v)
        raise Unsupported('insert into a list of references')

    def extend(self, o):
        if isinstance(o, VList) and o.items == []:
            return
        if not isinstance(o, IdList):
            raise Unsupported('extend of a list of references')
        n, m, f, g, p, q = zint(self.n), zint(o.n), self.fn, o.fn, self.pos, o.pos
        self.fn = lambda j: z3.If(j < n, f(j), g(j - n))
        self.pos = lambda x: z3.If(z3.And(p(x) >= 0, p(x) < n, f(p(x)) == x), p(x), n + q(x))
        self.n = SInt(z3.simplify(n + m))

    def __add__(self, o):
        r = VList(self)
        r.extend(o)
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def index(self, v):
        if not CTX.branch(self.has(v._id)):
            raise ValueError('not in list')
        return SInt(self.pos(v._id))

    def __contains__(self, v):
        return isinstance(v, HObj) and CTX.branch(self.has(v._id))

    def count(self, v):
        raise Unsupported('count')


class SymDict:
    """dict keyed by references"""
    _vc_state = True

    def __init__(self, name, k='i'):
        f = CTX.fresh_fn('D_' + name, I, SORT[k])
        p = CTX.fresh_fn('DP_' + name, I, B)
        self.val = Store(k, lambda j: f(*j), name)
        self.pres = Store('b', lambda j: p(*j), name + '_has')
        self.val0, self.pres0 = self.val.cur, self.pres.cur

    def __getitem__(self, o):
        if not CTX.branch(self.pres.cur((o._id,))):
            raise KeyError('key')
        return unz(z3.simplify(self.val.cur((o._id,))), self.val.k)

    def __setitem__(self, o, v):
        if kind(v) is None:
            raise Unsupported('object stored in a symbolic dict')
        self.pres.write((o._id,), True)
        self.val.write((o._id,), v)

    def __delitem__(self, o):
        if not CTX.branch(self.pres.cur((o._id,))):
            raise KeyError('key')
        self.pres.write((o._id,), False)

    def __contains__(self, o):
        return CTX.branch(self.pres.cur((o._id,)))

    def pop(self, o, *d):
        if CTX.branch(self.pres.cur((o._id,))):
            v = unz(self.val.cur((o._id,)), self.val.k)
            self.pres.write((o._id,), False)
            return v
        if d:
            return d[0]
        raise KeyError('key')

    def get(self, o, d=None):
        return self[o] if o in self else d

    def keys(self):
        raise Unsupported('iteration over a symbolic dict')
    items = values = __iter__ = keys


class Inverter:
    """loop hint: stores written at list elements L(k) are inverted with pos"""

    def __init__(self, *lists):
        self.lists = lists

    def invert(self, idx, k):
        if len(idx) != 1:
            return None
        for l in self.lists:
            n, fn, pos = zint(l.n), l.fn, l.pos
            for off in (0, 1):
                if idx[0].eq(z3.simplify(fn(k + off))):
                    def inv(j, fn=fn, pos=pos, off=off):
                        q = pos(j[0])
                        return q - off, fn(q) == j[0]
                    return inv
        return None
