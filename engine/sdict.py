"""Dictionaries keyed by arbitrary (symbolic) names, of arbitrary size.

A dictionary is a presence map and a value map over name identities; iterating
it goes through an enumeration (a list without duplicates of exactly the names
present, in an arbitrary order).  Values are object identities."""
import z3
from . import loops, loader
from .core import CTX, SInt, SBool, Unsupported
from .arr import VList, Store, zint, NArr, SymSeq
from .heap import IdList, HObj

I, B = z3.IntSort(), z3.BoolSort()
UNDERSCORE = z3.Function('starts_with_underscore', I, B)


class Name(loader.NameRef, HObj):
    """an arbitrary attribute name"""
    _vc_state = False

    def __init__(self, z, heap=None):
        object.__setattr__(self, '_heap', None)
        object.__setattr__(self, '_id', z)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Unsupported('str.%s of a symbolic name' % n)

    __hash__ = HObj.__hash__

    def startswith(self, p):
        if p != '_':
            raise Unsupported('startswith')
        return SBool(UNDERSCORE(self._id))

    def get(self, o):
        """o.name : instance attributes first, then __getattr__"""
        d = inst(o)
        if self in d:
            return d[self]
        return type(o).__getattr__(o, self)

    def set(self, o, v):
        type(o).__setattr__(o, self, v)


class Val:
    """an arbitrary stored object"""

    def __init__(self, z):
        object.__setattr__(self, '_id', z)

    def __eq__(self, o):
        return SBool(self._id == o._id) if hasattr(o, '_id') else False

    def __bool__(self):
        raise Unsupported('truth value of a stored object')
    __hash__ = None


class ArrVal(Val, NArr):
    """an arbitrary stored array"""

    def __init__(self, z):
        object.__setattr__(self, '_id', z)


def inst(o):
    d = object.__getattribute__(o, '__dict__')
    if '_vc_inst' not in d:
        d['_vc_inst'] = SDict()
    return d['_vc_inst']


def strname(n):
    """the identity of a literal name"""
    z = z3.Int('str_' + n)
    CTX.assume(UNDERSCORE(z) == z3.BoolVal(n.startswith('_')))
    return Name(z)


def obj_setattr(o, n, v):
    if isinstance(n, str) and CTX.__dict__.get('symdicts') and not n.startswith('_') and '_vc_inst' in o.__dict__:
        n = strname(n)
    if isinstance(n, Name):
        inst(o)[n] = v
    else:
        object.__setattr__(o, n, v)


class SDict:
    """dict: name -> object"""
    _vc_state = True
    wrap = Val

    def __init__(self, pres=None, val=None):
        self.pres = Store('b', pres or (lambda j: z3.BoolVal(False)), 'has')
        self.val = Store('i', val or (lambda j: z3.IntVal(0)), 'val')

    @staticmethod
    def fresh(name):
        f, p = CTX.fresh_fn('D_' + name, I, I), CTX.fresh_fn('DP_' + name, I, B)
        return SDict(lambda j: p(*j), lambda j: f(*j))

    def P(self, z):
        return self.pres.cur((z,))

    def V(self, z):
        return self.val.cur((z,))

    def frozen(self):
        return SDict(self.pres.cur, self.val.cur)
    copy = _vc_freeze = frozen

    def _k(self, o):
        if isinstance(o, str):
            o = strname(o)
        if not isinstance(o, Name):
            raise Unsupported('key of a symbolic dict')
        return o._id

    def __contains__(self, o):
        return CTX.branch(self.P(self._k(o)))

    def __getitem__(self, o):
        if not CTX.branch(self.P(self._k(o))):
            raise KeyError('name')
        return self.wrap(z3.simplify(self.V(o._id)))

    def get(self, o, d=None):
        return self[o] if o in self else d

    def __setitem__(self, o, v):
        k = self._k(o)
        if not isinstance(v, Val):
            raise Unsupported('foreign value in a symbolic dict')
        self.pres.write((k,), True)
        self.val.write((k,), SInt(v._id))

    def __delitem__(self, o):
        if not CTX.branch(self.P(self._k(o))):
            raise KeyError('name')
        self.pres.write((o._id,), False)

    def pop(self, o, *d):
        if o in self:
            v = self[o]
            del self[o]
            return v
        if d:
            return d[0]
        raise KeyError('name')

    def setdefault(self, o, v):
        if o not in self:
            self[o] = v
        return self[o]

    def update(self, o=None, **k):
        if k or not isinstance(o, SDict):
            raise Unsupported('dict.update')
        p, v, q, w = self.pres.cur, self.val.cur, o.pres.cur, o.val.cur
        self.pres.cur = lambda j: z3.Or(q(j), p(j))
        self.val.cur = lambda j: z3.If(q(j), w(j), v(j))

    def keys(self):
        """enumeration in arbitrary order"""
        f, p = CTX.fresh_fn('key', I, I), CTX.fresh_fn('kpos', I, I)
        n = CTX.fresh('nkeys', I)
        P = self.pres.cur
        j = z3.Int('j!k')
        l = IdList()
        l.heap, l.cls = None, Name
        l._sym(SInt(n), lambda i: f(i), 'i', lambda z: Name(z), lambda v: v._id)
        l.pos = lambda x: p(x)
        CTX.assume(n >= 0)
        CTX.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(p(f(j)) == j, P((f(j),)))), patterns=[f(j)]))
        CTX.assume(z3.ForAll([j], z3.Implies(P((j,)), z3.And(p(j) >= 0, p(j) < n, f(p(j)) == j)), patterns=[p(j)]))
        return l

    def _vc_space(self):
        return loops.symbolic_space(self.keys())

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic dict')

    def _vals(self, fn):
        l = self.keys()
        v, f = self.val.cur, l.fn
        return SymSeq(l.n, lambda k: fn(Name(f(zint(k))), self.wrap(v((f(zint(k)),)))), 'items')

    def items(self):
        return self._vals(lambda n, v: (n, v))

    def values(self):
        return self._vals(lambda n, v: v)

    def __bool__(self):
        if CTX.branch(z3.Const('dict_nonempty%d' % id(self), B) if False else self._nonempty()):
            return True
        return False

    def _nonempty(self):
        """a ghost witness decides emptiness"""
        w = CTX.fresh('witness', I)
        b = CTX.fresh('nonempty', B)
        j = z3.Int('j!e')
        CTX.assume(z3.Implies(b, self.P(w)))
        CTX.assume(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Not(self.P(j)))))
        return b


def mkdict(*a):
    """{} and dict() in the code under check"""
    if not CTX.__dict__.get('symdicts'):
        return dict(*a)
    if not a:
        return SDict()
    if isinstance(a[0], SDict):
        return a[0].copy()
    raise Unsupported('dict()')


class Opaque:
    def __init__(self, d):
        self.d = d


def callkw(f, a, kw, d):
    """f(*a, **kw, **d)"""
    if not isinstance(d, SDict):
        return f(*a, **dict(kw, **d))
    g = getattr(f, '_vc_kw', None)
    if g is None or kw:
        raise Unsupported('** of a symbolic dict')
    return g(a, d)
