"""Symbolic containers: numpy-like arrays (storage + view) and python lists."""
from fractions import Fraction
import z3
from . import core
from .core import (CTX, SReal, SInt, SBool, Sym, Unsupported, PathEnd, toreal, toint,
                   tobool, kind, const_of, ite, ftrunc)
from .lemmas import mksum

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
SORT = {'r': R, 'i': I, 'b': B}


def zint(i):
    return toint(i)


def cint(v):
    """python int if v is concrete, else None"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, SInt):
        c = const_of(v._z)
        return None if c is None else int(c)
    if isinstance(v, z3.ExprRef):
        c = const_of(v)
        return None if c is None else int(c)
    return None


def norm_int(v):
    c = cint(v)
    return c if c is not None else v


def unz(v, k):
    """z3 term -> value of kind k"""
    return SReal(v) if k == 'r' else SInt(v) if k == 'i' else SBool(v)


def toz(v, k):
    if k == 'r':
        return toreal(v)
    if k == 'i':
        if kind(v) == 'r':
            return ftrunc(toreal(v))
        return toint(v)
    return tobool(v)


class Store:
    """mutable storage; cur(idx tuple of z3 ints) -> z3 term"""
    count = 0

    def __init__(self, k, cur, name='a', ndim=1):
        self.k = k
        self.cur = cur
        self.name = name
        self.ndim = ndim
        self.log = []
        self.hist = ()          # indices written one by one, oldest first
        self.undef = False
        CTX.stores.append(self)

    def read(self, idx):
        return self.cur(tuple(zint(i) for i in idx))

    def write(self, idx, val):
        idx = tuple(zint(i) for i in idx)
        z = toz(val, self.k)
        old = self.cur
        self.log.append((idx, z))
        self.hist = (self.hist + (idx,))[-12:]

        def new(j, old=old, idx=idx, z=z):
            c = z3.simplify(z3.And(*[a == b for a, b in zip(j, idx)]))
            if z3.is_true(c):
                return z
            if z3.is_false(c):
                return old(j)
            return z3.If(c, z, old(j))
        self.cur = new

    def write_region(self, cond, val):
        """cur(j) := val(j) where cond(j)"""
        old = self.cur
        self.log.append(('region',))

        def new(j):
            c = z3.simplify(cond(j))
            if z3.is_true(c):
                return val(j)
            if z3.is_false(c):
                return old(j)
            return z3.If(c, val(j), old(j))
        self.cur = new

    def havoc(self, name=None):
        f = CTX.fresh_fn((name or self.name) + '_h', *([I] * self.ndim + [SORT[self.k]]))
        self.cur = lambda j: f(*j)
        self.log.append(('region',))

    def havoc_cells(self, cells, name):
        """arbitrary values in the given cells only; returns the new symbols"""
        out = []
        for idx in cells:
            z = CTX.fresh(name, SORT[self.k])
            self.write(idx, unz(z, self.k))
            out.append(z)
        return out


def dimeq(a, b):
    ca, cb = cint(a), cint(b)
    if ca is not None and cb is not None:
        return ca == cb
    za, zb = zint(a), zint(b)
    if za.eq(zb):
        return True
    return CTX.branch(za == zb)


class NArr:
    """numpy array model"""
    _vc_array = True
    __array_priority__ = 100

    def __init__(self, store, shape, imap=None, ro=False):
        self.store = store
        self.shp = tuple(norm_int(s) for s in shape)
        self.imap = imap

    # -- construction
    @staticmethod
    def fresh(name, shape, k='r', inp=True):
        shape = tuple(shape)
        f = CTX.fresh_fn(name, *([I] * len(shape) + [SORT[k]]))
        a = NArr(Store(k, lambda j: f(*j), name, len(shape)), shape)
        a.fn = f
        if inp:
            import itertools
            rng = [range(min(cint(s) if cint(s) is not None else 4, 4)) for s in shape]
            for ix in itertools.product(*rng):
                CTX.inputs['%s[%s]' % (f.name(), ','.join(map(str, ix)))] = f(*[z3.IntVal(i) for i in ix])
        return a

    @staticmethod
    def fromfn(shape, fn, k='r', name='t'):
        return NArr(Store(k, fn, name, len(tuple(shape))), shape)

    @staticmethod
    def fromlist(vals, k=None):
        vals = list(vals)
        if k is None:
            ks = [kind(v) for v in vals]
            if any(x is None for x in ks):
                raise Unsupported('array of non-numbers')
            k = 'r' if ('r' in ks or not ks) else ('i' if 'i' in ks else 'b')
        zs = [toz(v, k) for v in vals]
        return NArr(Store(k, lambda j, zs=zs: pick(zs, j[0]), 'lit', 1), (len(vals),))

    # -- attributes
    @property
    def shape(self):
        return tuple(self.shp)

    @property
    def ndim(self):
        return len(self.shp)

    @property
    def size(self):
        n = 1
        for s in self.shp:
            n = n * s
        return norm_int(n)

    @property
    def dtype(self):
        return DType(self.store.k)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.ravel()

    @property
    def real(self):
        return self

    def transpose(self):
        im = self.imap
        shp = tuple(reversed(self.shp))
        return NArr(self.store, shp, lambda j: (im or (lambda x: x))(tuple(reversed(j))))

    # -- raw access
    def zat(self, idx):
        idx = tuple(zint(i) for i in idx)
        if self.imap:
            idx = self.imap(idx)
        return self.store.read(idx)

    def at(self, *idx):
        return unz(self.zat(idx), self.store.k)

    def frozen(self):
        """function idx->z3 of the current contents (value semantics)"""
        cur, im = self.store.cur, self.imap
        if im:
            return lambda j: cur(im(j))
        return cur

    def copy(self):
        return NArr(Store(self.store.k, self.frozen(), self.store.name, self.ndim), self.shp)

    def astype(self, t):
        k = dkind(t)
        f, ok = self.frozen(), self.store.k
        return NArr.fromfn(self.shp, lambda j: toz(unz(f(j), ok), k), k)

    def __len__(self):
        if not self.shp:
            raise TypeError('len() of unsized object')
        c = cint(self.shp[0])
        if c is None:
            raise Unsupported('native len() of a symbolic array')
        return c

    def _vc_len(self):
        if not self.shp:
            raise TypeError('len() of unsized object')
        return self.shp[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def tolist(self):
        return VList([self[i] for i in range(len(self))])

    def item(self):
        return self._vc_scalar()

    def _vc_scalar(self):
        if self.ndim == 0:
            return self.at()
        if all(dimeq(s, 1) for s in self.shp):
            return self.at(*([0] * self.ndim))
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __bool__(self):
        if self.ndim == 0 or all(cint(s) == 1 for s in self.shp):
            return bool(self._vc_scalar())
        if cint(self.size) == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # -- indexing
    def _norm(self, i, n):
        """validated non-negative index"""
        if isinstance(i, NArr) and i.ndim == 0:
            i = i._vc_scalar()
        if kind(i) == 'r':
            raise IndexError('only integers, slices, ... are valid indices')
        c, cn = cint(i), cint(n)
        if c is not None and cn is not None:
            if c < -cn or c >= cn:
                raise IndexError('index %d is out of bounds for axis with size %d' % (c, cn))
            return c + cn if c < 0 else c
        z, zn = zint(i), zint(n)
        if CTX.branch(z < 0):
            z = z + zn
            if CTX.branch(z < 0):
                raise IndexError('index out of bounds')
        elif CTX.branch(z >= zn):
            raise IndexError('index out of bounds')
        return SInt(z3.simplify(z))

    def _view(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        nspec = sum(1 for x in key if x is not None and x is not Ellipsis)
        if Ellipsis in [x for x in key if not isinstance(x, (NArr, Sym))]:
            out = []
            for x in key:
                if x is Ellipsis:
                    out += [slice(None)] * (self.ndim - nspec)
                else:
                    out.append(x)
            key = tuple(out)
        else:
            key = key + (slice(None),) * (self.ndim - nspec)
        if nspec > self.ndim:
            raise IndexError('too many indices for array')
        newshape, plan = [], []
        ax = 0
        for x in key:
            if x is None:
                newshape.append(1)
                plan.append(('new',))
                continue
            n = self.shp[ax]
            ax += 1
            if isinstance(x, slice):
                st, ln, sp = slice_of(x, n)
                plan.append(('sl', st, sp))
                newshape.append(ln)
            else:
                plan.append(('ix', self._norm(x, n)))
        im = self.imap

        def imap(j):
            out, p = [], 0
            for a in plan:
                if a[0] == 'new':
                    p += 1
                elif a[0] == 'sl':
                    out.append(z3.simplify(zint(a[1]) + j[p] * a[2]))
                    p += 1
                else:
                    out.append(zint(a[1]))
            out = tuple(out)
            return im(out) if im else out
        return NArr(self.store, newshape, imap)

    def __getitem__(self, key):
        if isinstance(key, (NArr, VList, list)):
            return self._fancy(key)
        if isinstance(key, tuple) and any(isinstance(x, (VList, list)) or
                                          (isinstance(x, NArr) and x.ndim > 0) for x in key):
            raise Unsupported('fancy indexing')
        v = self._view(key)
        if v.ndim == 0:
            if getattr(self, 'objwrap', None):
                return self.objwrap(v.zat(()))
            return v.at()
        return v

    def _fancy(self, key):
        if not isinstance(key, NArr):
            key = NArr.fromlist(key)
        if key.store.k == 'b':
            raise Unsupported('boolean mask read')
        if self.ndim != 1 or key.ndim != 1:
            raise Unsupported('fancy indexing')
        f, g = self.frozen(), key.frozen()
        return NArr.fromfn(key.shp, lambda j: f((g(j),)), self.store.k)

    def __setitem__(self, key, val):
        if isinstance(key, NArr) and key.store.k == 'b':
            g = key.frozen()
            v = self
            cond = lambda j: g(j)
            if self.imap:
                raise Unsupported('mask assignment through a view')
            vf = bcast(val, self.shp, self.store.k)
            self.store.write_region(cond, vf)
            return
        if isinstance(key, (VList, list)) or (isinstance(key, NArr) and key.ndim > 0):
            raise Unsupported('fancy assignment')
        v = self._view(key)
        if v.ndim == 0:
            if isinstance(val, NArr):
                val = val._vc_scalar()
            if val is None or kind(val) is None and not isinstance(val, float):
                raise TypeError('float() argument must be a number')
            if isinstance(val, float) and val != val:
                z = CTX.fresh('nan', R)
                val = SReal(z)
            self.store.write(v.imap(()), val)
            return
        vf = bcast(val, v.shp, self.store.k)
        self._assign_view(v, vf)

    def _assign_view(self, v, vf):
        cs = [cint(s) for s in v.shp]
        tot = 1
        for c in cs:
            tot = None if (tot is None or c is None) else tot * c
        if tot is not None and tot <= 64:
            import itertools
            vals = [(ix, vf(tuple(z3.IntVal(i) for i in ix)))
                    for ix in itertools.product(*[range(c) for c in cs])]
            for ix, z in vals:
                self.store.write(v.imap(tuple(z3.IntVal(i) for i in ix)), unz(z, self.store.k))
            return
        # symbolic region: identify the store axes driven by each view axis
        probes = [z3.Int('p#%d' % i) for i in range(v.ndim)]
        tgt = v.imap(tuple(probes)) if v.imap else tuple(probes)
        axes = {}
        fixed = {}
        for ax, t in enumerate(tgt):
            used = [p for p in probes if mentions(t, p)]
            if not used:
                fixed[ax] = t
            elif len(used) == 1:
                p = used[0]
                off = z3.simplify(z3.substitute(t, (p, z3.IntVal(0))))
                d = const_of(z3.simplify(z3.substitute(t, (p, z3.IntVal(1))) - off))
                if d != 1:
                    raise Unsupported('strided symbolic assignment')
                axes[ax] = (probes.index(p), off)
            else:
                raise Unsupported('skewed view assignment')
        shp = v.shp

        def cond(j):
            cs = []
            for ax, t in fixed.items():
                cs.append(j[ax] == t)
            for ax, (p, off) in axes.items():
                cs.append(j[ax] >= off)
                cs.append(j[ax] < off + zint(shp[p]))
            return z3.And(*cs) if cs else z3.BoolVal(True)

        def val(j):
            idx = [z3.IntVal(0)] * v.ndim
            for ax, (p, off) in axes.items():
                idx[p] = z3.simplify(j[ax] - off)
            return vf(tuple(idx))
        self.store.write_region(cond, val)

    # -- elementwise
    def _bin(self, o, fn, rev=False):
        return ewise2(o, self, fn) if rev else ewise2(self, o, fn)

    def fill(self, v):
        self[...] = v

    def ravel(self):
        if self.ndim == 1:
            return NArr(self.store, self.shp, self.imap)
        return self.reshape(-1)

    flatten = lambda self: self.ravel().copy()

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, VList)):
            shape = tuple(shape[0])
        f = self.frozen()
        if len(shape) == 1:
            if cint(shape[0]) == -1:
                shape = (self.size,)
            if self.ndim == 1:
                return NArr.fromfn(shape, f, self.store.k)
            if self.ndim == 2:
                n1 = self.shp[1]
                im = self.imap
                return NArr(self.store, shape,
                            lambda j: (im or (lambda x: x))((j[0] / zint(n1), j[0] % zint(n1))))
        if len(shape) == 2 and self.ndim == 1:
            im = self.imap
            n1 = shape[1]
            return NArr(self.store, shape,
                        lambda j: (im or (lambda x: x))((j[0] * zint(n1) + j[1],)))
        raise Unsupported('reshape')

    # reductions
    def sum(self, axis=None, dtype=None):
        return np_sum(self, axis)

    def prod(self):
        c = cint(self.size)
        if c is None or self.ndim != 1:
            raise Unsupported('prod')
        r = 1
        for i in range(c):
            r = self[i] * r
        return r

    def mean(self, axis=None):
        if axis is not None:
            raise Unsupported('mean axis')
        return SReal(toreal(np_sum(self)) / toreal(self.size))

    def max(self, axis=None):
        return np_ext(self, True)

    def min(self, axis=None):
        return np_ext(self, False)

    def argmax(self, axis=None):
        return np_argext(self, True)

    def argmin(self, axis=None):
        return np_argext(self, False)

    def cumsum(self, axis=None):
        return np_cumsum(self)

    def all(self, axis=None):
        return np_all(self)

    def any(self, axis=None):
        return np_any(self)

    def dot(self, o):
        return np_dot(self, o)

    def sort(self):
        raise Unsupported('ndarray.sort')

    def clip(self, lo, hi):
        return np_clip(self, lo, hi)

    def __neg__(self):
        return ewise1(self, lambda a: -a)

    def __abs__(self):
        return ewise1(self, abs)

    def __invert__(self):
        return ewise1(self, lambda a: ~a)


class DType:
    def __init__(self, k):
        self.k = k
        self.kind = {'r': 'f', 'i': 'i', 'b': 'b'}[k]
        self.char = {'r': 'd', 'i': 'l', 'b': '?'}[k]

    def __eq__(self, o):
        return dkind(o) == self.k

    def __hash__(self):
        return hash(self.k)


def dkind(t):
    if t is None or t is SReal or t is float:
        return 'r'
    if t is SInt or t is int:
        return 'i'
    if t is bool:
        return 'b'
    if isinstance(t, DType):
        return t.k
    if isinstance(t, str):
        if t[:1] in 'fd':
            return 'r'
        if t[:1] in 'il':
            return 'i'
        if t[:1] in 'b?':
            return 'b'
    n = getattr(t, '__name__', '')
    if n.startswith('float'):
        return 'r'
    if n.startswith('int'):
        return 'i'
    raise Unsupported('dtype %r' % (t,))


def mentions(t, c):
    from .lemmas import _mentions
    return _mentions(t, c)


def pick(zs, i):
    c = const_of(i)
    if c is not None:
        if 0 <= c < len(zs):
            return zs[int(c)]
        return zs[0] if zs else z3.RealVal(0)
    r = zs[-1]
    for n in range(len(zs) - 2, -1, -1):
        r = z3.If(i == n, zs[n], r)
    return r


def slice_of(s, n):
    """(start, length, step) of a slice over an axis of size n"""
    step = 1 if s.step is None else cint(s.step)
    if step is None or step == 0:
        raise Unsupported('symbolic slice step')
    cn = cint(n)
    a, b = s.start, s.stop
    ca = None if a is None else cint(a)
    cb = None if b is None else cint(b)
    if cn is not None and (a is None or ca is not None) and (b is None or cb is not None):
        st, en, sp = slice(ca, cb, step).indices(cn)
        ln = max(0, (en - st + sp - (1 if sp > 0 else -1)) // sp)
        return st, ln, sp
    if step == -1 and a is None and b is None:
        return SInt(zint(n) - 1), n, -1
    if step not in (1, 2):
        raise Unsupported('symbolic slice with step')
    zn = zint(n)

    def clampidx(v, default):
        if v is None:
            return default
        c = cint(v)
        if c == 0:
            return z3.IntVal(0)
        z = zint(v)
        if c is not None and c > 0 or (c is None and not CTX.branch(z < 0)):
            if CTX.branch(z > zn):
                return zn
            return z
        z = z + zn
        if CTX.branch(z < 0):
            return z3.IntVal(0)
        return z
    st = clampidx(a, z3.IntVal(0))
    en = clampidx(b, zn)
    if CTX.branch(en <= st):
        return 0, 0, step
    ln = z3.simplify(en - st)
    if step == 2:
        ln = z3.simplify((ln + 1) / 2)
    return norm_int(SInt(z3.simplify(st))), norm_int(SInt(ln)), step


def asarr(v):
    if isinstance(v, NArr):
        return v
    if isinstance(v, (VList, list, tuple)):
        return np_array(v)
    return None


def bcast(val, shape, k):
    """function idx -> z3 of kind k, broadcasting val to shape"""
    a = asarr(val)
    if a is None:
        if isinstance(val, float) and val != val:
            f = CTX.fresh_fn('nan', *([I] * len(shape) + [SORT[k]]))
            return lambda j: f(*j)
        z = toz(val, k)
        return lambda j: z
    f, ak = a.frozen(), a.store.k
    off = len(shape) - a.ndim
    if off < 0:
        raise ValueError('could not broadcast input array')
    use = []
    for d in range(a.ndim):
        if cint(a.shp[d]) == 1 and cint(shape[off + d]) != 1:
            use.append(False)
        else:
            if not dimeq(a.shp[d], shape[off + d]):
                raise ValueError('could not broadcast input array')
            use.append(True)
    return lambda j: toz(unz(f(tuple(j[off + d] if use[d] else z3.IntVal(0)
                                     for d in range(a.ndim))), ak), k)


def ewise1(a, fn, k=None):
    f, ak = a.frozen(), a.store.k
    probe = fn(unz(f(tuple(z3.Int('q#%d' % i) for i in range(a.ndim))), ak))
    rk = kind(probe)
    return NArr.fromfn(a.shp, lambda j: toz(fn(unz(f(j), ak)), rk), rk)


def ewise2(a, b, fn):
    aa, bb = asarr(a), asarr(b)
    if aa is None and kind(a) is None or bb is None and kind(b) is None:
        return NotImplemented
    sa = aa.shp if aa is not None else ()
    sb = bb.shp if bb is not None else ()
    n = max(len(sa), len(sb))
    shape = []
    for d in range(n):
        x = sa[len(sa) - n + d] if len(sa) - n + d >= 0 else 1
        y = sb[len(sb) - n + d] if len(sb) - n + d >= 0 else 1
        if cint(x) == 1:
            shape.append(y)
        elif cint(y) == 1:
            shape.append(x)
        elif dimeq(x, y):
            shape.append(x)
        else:
            raise ValueError('operands could not be broadcast together')

    def getter(v, arr):
        if arr is None:
            return lambda j: v
        f, ak = arr.frozen(), arr.store.k
        off = n - arr.ndim
        one = [cint(arr.shp[d]) == 1 and cint(shape[off + d]) != 1 for d in range(arr.ndim)]
        return lambda j: unz(f(tuple(z3.IntVal(0) if one[d] else j[off + d]
                                     for d in range(arr.ndim))), ak)
    ga, gb = getter(a, aa), getter(b, bb)
    probe = fn(ga(tuple(z3.Int('q#%d' % i) for i in range(n))),
               gb(tuple(z3.Int('q#%d' % i) for i in range(n))))
    rk = kind(probe)
    return NArr.fromfn(shape, lambda j: toz(fn(ga(j), gb(j)), rk), rk)


def npdiv(a, b):
    """numpy division never raises"""
    return SReal(toreal(a) / toreal(b))


def npfloordiv(a, b):
    if kind(a) != 'r' and kind(b) != 'r':
        return SInt(core.floordiv(toint(a), toint(b)))
    return SReal(z3.ToReal(z3.ToInt(toreal(a) / toreal(b))))


def npmod(a, b):
    if kind(a) != 'r' and kind(b) != 'r':
        x, y = toint(a), toint(b)
        return SInt(x - y * core.floordiv(x, y))
    x, y = toreal(a), toreal(b)
    return SReal(x - y * z3.ToReal(z3.ToInt(x / y)))


def nppow(a, b):
    from .lemmas import power
    return power(a if isinstance(a, Sym) else (SReal(a) if kind(a) == 'r' else SInt(a)), b)


def _liftb(x):
    return x


def npadd(a, b):
    return core.arith('+', a, b)


OPS = {'add': npadd, 'sub': lambda a, b: core.arith('-', a, b),
       'mul': lambda a, b: core.arith('*', a, b), 'truediv': npdiv,
       'floordiv': npfloordiv, 'mod': npmod, 'pow': nppow,
       'lt': lambda a, b: _cmpb('<', a, b), 'le': lambda a, b: _cmpb('<=', a, b),
       'gt': lambda a, b: _cmpb('>', a, b), 'ge': lambda a, b: _cmpb('>=', a, b),
       'eq': lambda a, b: _cmpb('==', a, b), 'ne': lambda a, b: _cmpb('!=', a, b),
       'and': lambda a, b: SBool(z3.And(tobool(a), tobool(b))),
       'or': lambda a, b: SBool(z3.Or(tobool(a), tobool(b)))}


def _cmpb(op, a, b):
    r = core.compare(op, a, b)
    return r if isinstance(r, SBool) else SBool(z3.BoolVal(bool(r)))


def _install():
    for n, fn in OPS.items():
        def f(self, o, fn=fn, n=n):
            if o is None and n in ('eq', 'ne'):
                return n == 'ne'
            return ewise2(self, o, fn)

        def g(self, o, fn=fn):
            return ewise2(o, self, fn)
        setattr(NArr, '__%s__' % n, f)
        if n not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            setattr(NArr, '__r%s__' % n, g)

            def h(self, o, fn=fn):
                r = ewise2(self, o, fn)
                if r is NotImplemented:
                    return r
                if r.store.k == 'r' and self.store.k == 'i':
                    raise TypeError('Cannot cast ufunc output from float64 to int64')
                self[...] = r
                return self
            setattr(NArr, '__i%s__' % n, h)


_install()


# ---------------------------------------------------------------- reductions
def np_array(v, dtype=None, copy=True):
    if isinstance(v, NArr):
        r = v.copy()
        return r if dtype is None or dkind(dtype) == v.store.k else r.astype(dtype)
    if kind(v):
        k = dkind(dtype) if dtype is not None else kind(v)
        z = toz(v, k)
        return NArr.fromfn((), lambda j: z, k)
    if isinstance(v, VList) and v.items is None:
        fn, wrap = v.fn, v.wrap
        k = v.ekind
        if k is None:
            raise Unsupported('array of symbolic list of objects')
        rk = dkind(dtype) if dtype is not None else k
        return NArr.fromfn((v.n,), lambda j: toz(unz(fn(j[0]), k), rk), rk)
    if isinstance(v, SymSeq):
        raise Unsupported('array of symbolic sequence')
    vals = list(v)
    if vals and all(isinstance(x, (NArr, VList, list, tuple)) for x in vals):
        rows = [np_array(x) for x in vals]
        k = 'r' if any(r.store.k == 'r' for r in rows) else rows[0].store.k
        if dtype is not None:
            k = dkind(dtype)
        sh = rows[0].shp
        for r in rows[1:]:
            if len(r.shp) != len(sh) or not all(dimeq(x, y) for x, y in zip(r.shp, sh)):
                raise ValueError('inhomogeneous shape')
        fs = [(r.frozen(), r.store.k) for r in rows]
        return NArr.fromfn((len(rows),) + tuple(sh),
                           lambda j: pick([toz(unz(f(j[1:]), kk), k) for f, kk in fs], j[0]), k)
    return NArr.fromlist(vals, dkind(dtype) if dtype is not None else None)


def np_sum(a, axis=None):
    if not isinstance(a, NArr):
        aa = asarr(a)
        if aa is None:
            return a
        a = aa
    f, k = a.frozen(), a.store.k
    if k == 'b':
        f0 = f
        f = lambda j: z3.If(f0(j), z3.IntVal(1), z3.IntVal(0))
        k = 'i'
    term = (lambda j: f(j)) if k == 'r' else (lambda j: z3.ToReal(f(j)))

    def res(z):
        return SReal(z) if k == 'r' else SInt(z3.ToInt(z))
    if a.ndim == 1 and axis in (None, 0, -1):
        return res(mksum(lambda i: term((i,)), 0, a.shp[0]))
    if a.ndim == 2 and axis is None:
        # row sums of row sums
        cs = [cint(s) for s in a.shp]
        if cs[0] is not None and cs[1] is not None and cs[0] * cs[1] <= 100:
            t = z3.RealVal(0)
            for i in range(cs[0]):
                for j in range(cs[1]):
                    t = t + term((z3.IntVal(i), z3.IntVal(j)))
            return res(z3.simplify(t))
        kk = z3.Int('k2#sum')
        inner = lambda i: sum_term(lambda j: term((i, j)), a.shp[1], kk)
        return res(mksum(inner, 0, a.shp[0]))
    if a.ndim == 2 and axis in (0, 1, -1):
        kk = z3.Int('k2#sum')
        if axis == 0:
            return NArr.fromfn((a.shp[1],), lambda j: sum_term(lambda i: term((i, j[0])), a.shp[0], kk))
        return NArr.fromfn((a.shp[0],), lambda j: sum_term(lambda i: term((j[0], i)), a.shp[1], kk))
    if a.ndim == 0:
        return a._vc_scalar()
    raise Unsupported('sum axis=%r ndim=%d' % (axis, a.ndim))


def sum_term(fn, n, var):
    c = cint(n)
    if c is not None and c <= 12:
        t = z3.RealVal(0)
        for j in range(c):
            t = t + fn(z3.IntVal(j))
        return z3.simplify(t)
    from .lemmas import SUM
    return SUM(z3.Lambda([var], fn(var)), z3.IntVal(0), zint(n))


def np_ext(a, mx):
    a = asarr(a) if not isinstance(a, NArr) else a
    c = cint(a.size)
    f, k = a.frozen(), a.store.k
    if c is not None:
        if c == 0:
            raise ValueError('zero-size array to reduction operation')
        if c <= 32:
            import itertools
            els = [f(tuple(z3.IntVal(i) for i in ix)) for ix in
                   itertools.product(*[range(cint(s)) for s in a.shp])]
            m = els[0]
            for e in els[1:]:
                m = z3.If((e > m) if mx else (e < m), e, m)
            return unz(m, k)
    if CTX.branch(z3.Or(*[zint(s) <= 0 for s in a.shp])):
        raise ValueError('zero-size array to reduction operation')
    def new(tag):
        return (z3.Const(('amax' if mx else 'amin') + tag, SORT[k]), [z3.Int('jm%s_%d' % (tag, i)) for i in range(a.ndim)],
                [z3.Int('wm%s_%d' % (tag, i)) for i in range(a.ndim)])
    if CTX.memo_ext:        # loop-free tasks: the same array has the same maximum
        key = [z3.simplify(f(tuple(z3.Int('jm#%d' % i) for i in range(a.ndim))))] + [zint(s) for s in a.shp]
        for mx0, k0, v0 in CTX.extmemo:
            if mx0 == mx and len(k0) == len(key) and all(x.eq(y) for x, y in zip(k0, key)):
                m, js, ws = v0
                break
        else:
            m, js, ws = new('#%d' % len(CTX.extmemo))
            CTX.extmemo.append((mx, key, (m, js, ws)))
    else:
        m = CTX.fresh('amax' if mx else 'amin', SORT[k])
        js = [CTX.fresh('jm', I) for _ in a.shp]
        ws = [CTX.fresh('wm', I) for _ in a.shp]
    inr = z3.And(*[z3.And(j >= 0, j < zint(s)) for j, s in zip(js, a.shp)])
    winr = z3.And(*[z3.And(j >= 0, j < zint(s)) for j, s in zip(ws, a.shp)])
    body = f(tuple(js))
    CTX.assume(z3.And(winr, m == f(tuple(ws))))
    CTX.assume(z3.ForAll(js, z3.Implies(inr, body <= m if mx else body >= m)))
    return unz(m, k)


def np_argext(a, mx):
    a = asarr(a) if not isinstance(a, NArr) else a
    if a.ndim != 1:
        a = a.ravel()
    if CTX.branch(zint(a.shp[0]) <= 0):
        raise ValueError('attempt to get argmax of an empty sequence')
    f = a.frozen()
    w = CTX.fresh('warg', I)
    j = CTX.fresh('jarg', I)
    CTX.assume(z3.And(w >= 0, w < zint(a.shp[0])))
    CTX.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(a.shp[0])),
                                         z3.And(f((j,)) <= f((w,)) if mx else f((j,)) >= f((w,)),
                                                z3.Implies(j < w, f((j,)) != f((w,)))))))
    return SInt(w)


def np_cumsum(a):
    if a.ndim != 1:
        raise Unsupported('cumsum')
    f, k = a.frozen(), a.store.k
    kk = z3.Int('k3#sum')
    from .lemmas import SUM
    c = cint(a.shp[0])
    term = (lambda i: f((i,))) if k == 'r' else (lambda i: z3.ToReal(f((i,))))
    if c is not None and c <= 40:
        acc, out = z3.RealVal(0), []
        for i in range(c):
            acc = z3.simplify(acc + term(z3.IntVal(i)))
            out.append(acc)
        return NArr.fromlist([SReal(o) if k == 'r' else SInt(z3.ToInt(o)) for o in out], k)
    return NArr.fromfn(a.shp, lambda j: SUM(z3.Lambda([kk], term(kk)), z3.IntVal(0), j[0] + 1))


def np_all(a):
    if not isinstance(a, NArr):
        return a
    f, k = a.frozen(), a.store.k
    js = [CTX.fresh('ja', I) for _ in a.shp]
    inr = z3.And(*[z3.And(j >= 0, j < zint(s)) for j, s in zip(js, a.shp)])
    b = f(tuple(js)) if k == 'b' else f(tuple(js)) != 0
    cs = [cint(s) for s in a.shp]
    if len(cs) == 1 and cs[0] is not None and cs[0] <= 32:
        return SBool(z3.And(*[(f((z3.IntVal(i),)) if k == 'b' else f((z3.IntVal(i),)) != 0)
                              for i in range(cs[0])]))
    return SBool(z3.ForAll(js, z3.Implies(inr, b)))


def np_any(a):
    if not isinstance(a, NArr):
        return a
    f, k = a.frozen(), a.store.k
    js = [CTX.fresh('ja', I) for _ in a.shp]
    inr = z3.And(*[z3.And(j >= 0, j < zint(s)) for j, s in zip(js, a.shp)])
    b = f(tuple(js)) if k == 'b' else f(tuple(js)) != 0
    cs = [cint(s) for s in a.shp]
    if len(cs) == 1 and cs[0] is not None and cs[0] <= 32:
        return SBool(z3.Or(*[(f((z3.IntVal(i),)) if k == 'b' else f((z3.IntVal(i),)) != 0)
                             for i in range(cs[0])]))
    return SBool(z3.Exists(js, z3.And(inr, b)))


def np_dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return np_sum(a * b, axis=1)
    raise Unsupported('dot')


def np_clip(a, lo, hi):
    def f1(x):
        if lo is not None:
            x = ite(core.compare('<', x, lo), lo, x)
        if hi is not None:
            x = ite(core.compare('>', x, hi), hi, x)
        return x
    if isinstance(a, NArr):
        return ewise1(a, f1)
    return f1(a if isinstance(a, Sym) else SReal(a))


# ---------------------------------------------------------------- sequences
class SymSeq:
    """abstract iteration space: n items, item(k) (k a z3 Int / python int)"""

    def __init__(self, n, item, label=''):
        self.n, self.item, self.label = n, item, label

    def _vc_len(self):
        return self.n

    def __iter__(self):
        c = cint(self.n)
        if c is None:
            raise Unsupported('native iteration over a symbolic sequence')
        for i in range(c):
            yield self.item(i)

    def __getitem__(self, i):
        c, n = cint(i), cint(self.n)
        if c is not None and n is not None:
            if c < -n or c >= n:
                raise IndexError
            return self.item(c % n)
        z = zint(i)
        if CTX.branch(z < 0):
            z = z + zint(self.n)
        if CTX.branch(z >= zint(self.n)):
            raise IndexError('list index out of range')
        return self.item(z)


class SymRange(SymSeq):
    pass


def mkrange(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    for x in (lo, hi, st):
        if kind(x) == 'r' or kind(x) is None:
            raise TypeError("'float' object cannot be interpreted as an integer")
    cs = [cint(x) for x in (lo, hi, st)]
    if None not in cs:
        return range(*cs)
    if cs[2] is None:
        raise Unsupported('symbolic range step')
    s = cs[2]
    zlo, zhi = zint(lo), zint(hi)
    n = (zhi - zlo) if s == 1 else (zlo - zhi) if s == -1 else \
        ((zhi - zlo + (s - 1)) / s if s > 0 else (zlo - zhi + (-s - 1)) / (-s))
    n = z3.If(n < 0, z3.IntVal(0), n)
    return SymRange(SInt(n), lambda k: SInt(z3.simplify(zlo + zint(k) * s)), 'range')


class VList:
    """python list; concrete (items) or symbolic (n, fn, wrap)"""
    _vc_state = True

    def __init__(self, it=()):
        self.items = None
        self.n = self.fn = None
        self.wrap = None
        self.ekind = None
        if isinstance(it, VList):
            if it.items is not None:
                self.items = list(it.items)
            else:
                self.n, self.fn, self.wrap, self.ekind = it.n, it.fn, it.wrap, it.ekind
                self.toz_ = it.toz_
                if hasattr(it, 'pos') and type(self) is VList:
                    self.__class__ = type(it)
                    self.heap, self.cls, self.pos = it.heap, it.cls, it.pos
        elif isinstance(it, SymSeq) and cint(it.n) is None:
            k0 = it.item(z3.Int('pr#'))
            kk = kind(k0)
            if kk is None:
                def no(v):
                    raise Unsupported('change of a list of symbolic objects')
                self._sym(it.n, lambda i: i, 'i', lambda z: it.item(z), no)
                return
            self._sym(it.n, lambda i: toz(it.item(i), kk), kk)
        elif isinstance(it, NArr) and cint(it.shp[0]) is None:
            if it.ndim != 1:
                raise Unsupported('list of 2-d array')
            f = it.frozen()
            self._sym(it.shp[0], lambda i: f((i,)), it.store.k)
        else:
            self.items = list(it)

    def _sym(self, n, fn, ekind, wrap=None, toz_=None):
        self.items = None
        self.n, self.fn, self.ekind = n, fn, ekind
        self.wrap = wrap or (lambda z: unz(z, ekind))
        self.toz_ = toz_ or (lambda v: toz(v, ekind))
        return self

    @staticmethod
    def symbolic(n, fn, ekind, wrap=None, toz_=None):
        return VList()._sym(n, fn, ekind, wrap, toz_)

    def _vc_len(self):
        return len(self.items) if self.items is not None else norm_int(self.n)

    def __len__(self):
        if self.items is not None:
            return len(self.items)
        c = cint(self.n)
        if c is None:
            raise Unsupported('native len of symbolic list')
        return c

    def __bool__(self):
        n = self._vc_len()
        return n != 0 if isinstance(n, int) else CTX.branch(zint(n) != 0)

    def _idx(self, i):
        n = self._vc_len()
        c, cn = cint(i), cint(n)
        if kind(i) not in ('i', 'b'):
            raise TypeError('list indices must be integers or slices, not %s' % type(i).__name__)
        if c is not None and cn is not None:
            if c < -cn or c >= cn:
                raise IndexError('list index out of range')
            return c % cn
        z, zn = zint(i), zint(n)
        if CTX.branch(z < 0):
            z = z + zn
            if CTX.branch(z < 0):
                raise IndexError('list index out of range')
        elif CTX.branch(z >= zn):
            raise IndexError('list index out of range')
        return SInt(z3.simplify(z))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.items is not None:
                parts = [i.start, i.stop, i.step]
                if all(p is None or cint(p) is not None for p in parts):
                    r = VList()
                    r.items = self.items[slice(*[None if p is None else cint(p) for p in parts])]
                    return r
                return self.tosym()[i]
            st, ln, sp = slice_of(i, self.n)
            fn = self.fn
            return VList()._sym(ln, lambda j: fn(zint(st) + j * sp), self.ekind, self.wrap, self.toz_)
        i = self._idx(i)
        if self.items is not None:
            if isinstance(i, int):
                return self.items[i]
            vals = self.items
            if all(kind(v) for v in vals):
                r = vals[-1]
                for n in range(len(vals) - 2, -1, -1):
                    r = ite(i._z == n, vals[n], r)
                return r
            for n in range(len(vals)):
                if CTX.branch(i._z == n):
                    return vals[n]
            raise PathEnd()
        return self.wrap(self.fn(zint(i)))

    def tosym(self):
        """symbolic copy of a concrete numeric list"""
        ks = [kind(v) for v in self.items]
        if not self.items or any(x is None for x in ks):
            raise Unsupported('symbolic view of an object list')
        k = 'r' if 'r' in ks else 'i' if 'i' in ks else 'b'
        zs = [toz(v, k) for v in self.items]
        return VList()._sym(len(zs), lambda j: pick(zs, j), k)

    def become_symbolic(self, k=None):
        if self.items is None:
            return
        if self.items:
            s = self.tosym()
            self._sym(s.n, s.fn, s.ekind)
        else:
            if k is None:
                raise Unsupported('element kind of empty list unknown')
            zero = {'r': z3.RealVal(0), 'i': z3.IntVal(0), 'b': z3.BoolVal(False)}[k]
            self._sym(0, lambda j: zero, k)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if self.items is not None and not isinstance(v, NArr) and \
                    all(p is None or cint(p) is not None for p in (i.start, i.stop, i.step)):
                self.items[slice(*[None if p is None else cint(p) for p in (i.start, i.stop, i.step)])] = list(v)
                return
            raise Unsupported('symbolic slice assignment')
        i = self._idx(i)
        if self.items is not None:
            if isinstance(i, int):
                self.items[i] = v
                return
            if kind(v) is None:
                for n in range(len(self.items)):
                    if CTX.branch(i._z == n):
                        self.items[n] = v
                        return
                raise PathEnd()
            self.items = [ite(i._z == n, v, x) for n, x in enumerate(self.items)]
            return
        z, zi, old = self.toz_(v), zint(i), self.fn
        self.fn = lambda j: z3.If(j == zi, z, old(j))

    def append(self, v):
        if self.items is not None:
            self.items.append(v)
            return
        if kind(v) == 'r' and self.ekind == 'i':
            of = self.fn
            self._sym(self.n, lambda j: z3.ToReal(of(j)), 'r')
        z, n, old = self.toz_(v), zint(self.n), self.fn
        self.fn = lambda j: z3.If(j == n, z, old(j))
        self.n = SInt(z3.simplify(n + 1))

    def extend(self, o):
        if self.items is not None and (not isinstance(o, VList) or o.items is not None):
            self.items.extend(o)
            return
        if self.items is not None and not self.items and hasattr(o, 'pos'):
            VList.__init__(self, o)
            return
        raise Unsupported('symbolic extend')

    def insert(self, i, v):
        if self.items is not None and cint(i) is not None:
            self.items.insert(cint(i), v)
            return
        if self.items is not None and kind(v) is None:
            n = len(self.items)
            for k in range(n):
                if CTX.branch(zint(i) == k):
                    self.items.insert(k, v)
                    return
            if CTX.branch(zint(i) >= n):
                self.items.append(v)
                return
            raise Unsupported('negative symbolic insert')
        if self.items is not None:
            self.become_symbolic(kind(v))
        zi, zn = zint(i), zint(self.n)
        if CTX.branch(zi < 0):
            zi = z3.If(zi + zn < 0, z3.IntVal(0), zi + zn)
        if CTX.branch(zi > zn):
            zi = zn
        z, old = self.toz_(v), self.fn
        self.fn = lambda j: z3.If(j < zi, old(j), z3.If(j == zi, z, old(j - 1)))
        self.n = SInt(z3.simplify(zn + 1))

    def pop(self, i=-1):
        if self.items is not None and cint(i) is not None:
            return self.items.pop(cint(i))
        i = self._idx(i)
        v = self[i]
        if self.items is not None:
            self.become_symbolic()
        zi, old = zint(i), self.fn
        self.fn = lambda j: z3.If(j < zi, old(j), old(j + 1))
        self.n = SInt(z3.simplify(zint(self.n) - 1))
        return v

    def __delitem__(self, i):
        if isinstance(i, slice):
            if self.items is not None:
                del self.items[i]
                return
            raise Unsupported('symbolic slice delete')
        self.pop(i)

    def remove(self, v):
        if self.items is not None:
            for n, x in enumerate(self.items):
                if x is v or veq(x, v):
                    del self.items[n]
                    return
            raise ValueError('list.remove(x): x not in list')
        raise Unsupported('remove on symbolic list')

    def index(self, v):
        if self.items is not None:
            for n, x in enumerate(self.items):
                if x is v or veq(x, v):
                    return n
            raise ValueError('not in list')
        raise Unsupported('index on symbolic list')

    def count(self, v):
        return sum(1 for x in self.items if x is v or veq(x, v))

    def reverse(self):
        if self.items is not None:
            self.items.reverse()
            return
        n, old = zint(self.n), self.fn
        self.fn = lambda j: old(n - 1 - j)

    def sort(self, key=None, reverse=False):
        if self.items is not None and not any(isinstance(x, Sym) for x in self.items):
            self.items.sort(key=key, reverse=reverse)
            return
        raise Unsupported('sort of symbolic list')

    def copy(self):
        return VList(self)

    def __contains__(self, v):
        if self.items is not None:
            return any(x is v or veq(x, v) for x in self.items)
        raise Unsupported('membership in symbolic list')

    def __iter__(self):
        if self.items is None and cint(self.n) is None:
            raise Unsupported('native iteration over a symbolic list')
        i = 0
        while i < len(self):
            yield self[i]
            i += 1

    def __add__(self, o):
        r = VList(self)
        if isinstance(o, NArr):
            return NotImplemented
        if not isinstance(o, (VList, list)):
            raise TypeError('can only concatenate list (not "%s") to list' % type(o).__name__)
        if r.items is not None and (not isinstance(o, VList) or o.items is not None):
            r.items = r.items + list(o)
            return r
        if not isinstance(o, VList):
            o = VList(o)
        a = r if r.items is None else (r.tosym() if r.items else None)
        b = o if o.items is None else (o.tosym() if o.items else None)
        if a is None:
            return VList(o)
        if b is None:
            return VList(r)
        k = 'r' if 'r' in (a.ekind, b.ekind) else a.ekind
        n, fa, fb, ak, bk = zint(a.n), a.fn, b.fn, a.ekind, b.ekind
        return VList()._sym(SInt(z3.simplify(n + zint(b.n))),
                            lambda j: z3.If(j < n, toz(unz(fa(j), ak), k), toz(unz(fb(j - n), bk), k)), k)

    def __radd__(self, o):
        return VList(o) + self

    def __iadd__(self, o):
        if isinstance(o, NArr):
            for x in o:
                self.append(x)
            return self
        r = self + (o if isinstance(o, (VList, list)) else VList(o))
        self.items = r.items
        if r.items is None:
            self._sym(r.n, r.fn, r.ekind, r.wrap, r.toz_)
        return self

    def __mul__(self, n):
        r = VList()
        c = cint(n)
        if self.items is not None and c is not None:
            r.items = self.items * c
            return r
        if self.items is not None and len(self.items) == 1 and kind(self.items[0]):
            k = kind(self.items[0])
            z = toz(self.items[0], k)
            return r._sym(n, lambda j: z, k)
        raise Unsupported('list repetition')
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (list, VList)):
            if self.items is not None and (isinstance(o, list) or o.items is not None):
                a, b = self.items, list(o)
                return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
            if isinstance(o, list) and not o or isinstance(o, VList) and o.items == []:
                return SBool(zint(self.n) == 0)
            if self.items == []:
                return SBool(zint(o.n) == 0)
            raise Unsupported('symbolic list comparison')
        return False

    def __ne__(self, o):
        r = self == o
        return SBool(z3.Not(r._z)) if isinstance(r, SBool) else not r

    __hash__ = None

    def __repr__(self):
        return 'VList(%r)' % (self.items if self.items is not None else 'sym')


def veq(a, b):
    if a is b:
        return True
    r = (a == b)
    return bool(r)
