"""Models (assumed contracts) of the third-party functions the code calls."""
import sys, types, math
import z3
from . import core, lemmas
from .core import (CTX, SReal, SInt, SBool, Sym, Unsupported, kind, toreal, toint, tobool,
                   ite, const_of, INF)
from .arr import (NArr, VList, Store, DType, dkind, np_array, np_sum, np_ext, np_argext, np_clip,
                  np_dot, np_cumsum, np_all, np_any, asarr, ewise1, ewise2, cint, zint, mkrange,
                  norm_int, unz, toz, pick, npdiv, SymSeq)

I, R = z3.IntSort(), z3.RealSort()


def _uf(fn, npname):
    def f(x, out=None):
        if isinstance(x, (VList, list, tuple)):
            x = np_array(x)
        if isinstance(x, NArr):
            return ewise1(x, lambda v: fn(SReal(v)))
        if kind(x) is None:
            raise TypeError("ufunc '%s' not supported for the input types" % npname)
        if isinstance(x, float) and (x != x or x in (INF, -INF)):
            return getattr(_np_native(), npname)(x)
        return fn(x)
    f.__name__ = npname
    return f


class _Nat:
    exp = staticmethod(lambda x: 0.0 if x == -INF else INF if x == INF else x)
    log = staticmethod(lambda x: x)
    sqrt = staticmethod(lambda x: x)
    sin = cos = floor = ceil = staticmethod(lambda x: x)


def _np_native():
    return _Nat


exp = _uf(lemmas.f_exp, 'exp')
log = _uf(lemmas.f_log, 'log')
sqrt = _uf(lemmas.f_sqrt, 'sqrt')
sin = _uf(lambda x: SReal(lemmas.SIN(toreal(x))), 'sin')
cos = _uf(lambda x: SReal(lemmas.COS(toreal(x))), 'cos')
floor = _uf(lambda x: SReal(z3.ToReal(z3.ToInt(toreal(x)))), 'floor')
ceil = _uf(lambda x: SReal(-z3.ToReal(z3.ToInt(-toreal(x)))), 'ceil')
LN10 = z3.Real('LN10#')
log10 = _uf(lambda x: SReal(lemmas.LOG(toreal(x)) / lemmas.LOG(z3.RealVal(10))), 'log10')
absolute = _uf(abs, 'abs')


def np_abs(x):
    return abs(x) if not isinstance(x, (VList, list, tuple)) else abs(np_array(x))


def isnan(x):
    if isinstance(x, float):
        return x != x
    if isinstance(x, NArr):
        return ewise1(x, lambda v: SBool(z3.BoolVal(False)))
    return False


def isinf(x):
    """overflow of exp() is the only source of infinities in the modelled code:
    decided by the ghost predicate OVER(x)"""
    if isinstance(x, float):
        return x in (INF, -INF)
    if isinstance(x, NArr):
        return ewise1(x, lambda v: SBool(z3.BoolVal(False)))
    if isinstance(x, SReal) and CTX.__dict__.get('overflow_model'):
        return CTX.overflow_model(x)
    return False


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    if isinstance(s, VList):
        return tuple(s)
    return (s,)


def _checkshape(s):
    for d in s:
        if kind(d) == 'r':
            raise TypeError("'float' object cannot be interpreted as an integer")
        c = cint(d)
        if c is not None and c < 0 or c is None and CTX.branch(zint(d) < 0):
            raise ValueError('negative dimensions are not allowed')
    return s


def zeros(shape, dtype=None):
    k = dkind(dtype)
    z = toz(0, k)
    return NArr.fromfn(_checkshape(_shape(shape)), lambda j: z, k, 'zeros')


def ones(shape, dtype=None):
    k = dkind(dtype)
    z = toz(1, k) if k != 'b' else z3.BoolVal(True)
    return NArr.fromfn(_checkshape(_shape(shape)), lambda j: z, k, 'ones')


def empty(shape, dtype=None):
    k = dkind(dtype)
    shp = _checkshape(_shape(shape))
    return NArr.fresh('empty', shp, k, inp=False)


def zeros_like(a, dtype=None):
    if not isinstance(a, NArr):
        a = np_array(a)
    k = dkind(dtype) if dtype is not None else a.store.k
    z = toz(0, k)
    return NArr.fromfn(a.shp, lambda j: z, k, 'zeros')


def ones_like(a, dtype=None):
    return zeros_like(a, dtype) + 1


def empty_like(a, dtype=None):
    return NArr.fresh('empty', a.shp, dkind(dtype) if dtype is not None else a.store.k, inp=False)


def full(shape, v, dtype=None):
    k = dkind(dtype) if dtype is not None else kind(v)
    z = toz(v, k)
    return NArr.fromfn(_checkshape(_shape(shape)), lambda j: z, k)


def arange(*a, **kw):
    dt = kw.get('dtype')
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a[:3]
        if len(a) > 3:
            dt = a[3]
    if any(kind(x) == 'r' for x in (lo, hi, st)):
        c = [const_of(toreal(x)) for x in (lo, hi, st)]
        if None in c:
            if const_of(toreal(lo)) == 0 and const_of(toreal(st)) == 1:
                n = SInt(-z3.ToInt(-toreal(hi)))
                return NArr.fromfn((n,), lambda j: z3.ToReal(j[0]), 'r')
            raise Unsupported('symbolic float arange')
        n = max(0, math.ceil((c[1] - c[0]) / c[2]))
        return NArr.fromlist([SReal(core.realval(c[0] + i * c[2])) for i in range(n)], 'r')
    r = mkrange(lo, hi, st)
    if isinstance(r, range):
        return NArr.fromlist(list(r), dkind(dt) if dt is not None else 'i')
    k = dkind(dt) if dt is not None else 'i'
    return NArr.fromfn((r.n,), lambda j: toz(r.item(j[0]), k), k)


def linspace(lo, hi, n=50, endpoint=True):
    lo_, hi_ = toreal(lo), toreal(hi)
    if CTX.branch(toint(n) == 1):
        return NArr.fromlist([SReal(lo_)], 'r')
    return NArr.fromfn((n,), lambda j: z3.If(j[0] == toint(n) - 1, hi_,
                                             lo_ + z3.ToReal(j[0]) * (hi_ - lo_) / z3.ToReal(toint(n) - 1)), 'r')


def identity(n, dtype=None):
    return NArr.fromfn((n, n), lambda j: z3.If(j[0] == j[1], z3.RealVal(1), z3.RealVal(0)), 'r')


def fromfunction(fn, shape, dtype=None):
    shape = _shape(shape)
    grids = [NArr.fromfn(shape, lambda j, d=d: z3.ToReal(j[d]), 'r') for d in range(len(shape))]
    return fn(*grids)


def concatenate(seq, axis=0):
    parts = [asarr(x) for x in seq]
    if any(p is None or p.ndim == 0 for p in parts):
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    r = parts[0]
    for p in parts[1:]:
        if r.ndim != p.ndim:
            raise ValueError('dimensions must match')
        k = 'r' if 'r' in (r.store.k, p.store.k) else r.store.k
        f, g, n = r.frozen(), p.frozen(), zint(r.shp[0])
        rk, pk = r.store.k, p.store.k
        tot = norm_int(SInt(z3.simplify(n + zint(p.shp[0]))))
        r = NArr.fromfn((tot,) + tuple(r.shp[1:]),
                        lambda j, f=f, g=g, n=n, rk=rk, pk=pk, k=k: z3.If(
                            j[0] < n, toz(unz(f(j), rk), k),
                            toz(unz(g((j[0] - n,) + tuple(j[1:])), pk), k)), k)
    return r


def shape(a):
    if isinstance(a, NArr):
        return a.shape
    if kind(a):
        return ()
    return np_array(a).shape


def size(a):
    return a.size if isinstance(a, NArr) else np_array(a).size


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where(cond)')
    if not isinstance(c, NArr):
        return ite(c, a, b)
    t = ewise2(c, a, lambda x, y: y) if asarr(a) is not None else None
    fa = (lambda j: asarr(a).frozen()(j)) if asarr(a) is not None else (lambda j: toreal(a))
    fb = (lambda j: asarr(b).frozen()(j)) if asarr(b) is not None else (lambda j: toreal(b))
    fc = c.frozen()
    return NArr.fromfn(c.shp, lambda j: z3.If(fc(j), fa(j), fb(j)), 'r')


def np_max(a, axis=None):
    return np_ext(a, True)


def np_min(a, axis=None):
    return np_ext(a, False)


def maximum(a, b):
    f = lambda x, y: ite(core.compare('>', x, y), x, y)
    if isinstance(a, NArr) or isinstance(b, NArr):
        return ewise2(a, b, f)
    return f(a, b)


def minimum(a, b):
    f = lambda x, y: ite(core.compare('<', x, y), x, y)
    if isinstance(a, NArr) or isinstance(b, NArr):
        return ewise2(a, b, f)
    return f(a, b)


def mean(a):
    return asarr(a).mean()


def searchsorted(*a, **k):
    raise Unsupported('searchsorted')


def np_round(x, n=0):
    raise Unsupported('round')


def asarray(a, dtype=None):
    if isinstance(a, NArr) and (dtype is None or dkind(dtype) == a.store.k):
        return a
    return np_array(a, dtype)


def atleast_1d(a):
    if isinstance(a, NArr) and a.ndim >= 1:
        return a
    if kind(a):
        return NArr.fromlist([a])
    return np_array(a)


def diff(a):
    a = asarr(a)
    f = a.frozen()
    return NArr.fromfn((norm_int(SInt(z3.simplify(zint(a.shp[0]) - 1))),),
                       lambda j: f((j[0] + 1,)) - f((j[0],)), a.store.k)


def isscalar(x):
    return kind(x) is not None


def unravel_index(i, shp):
    raise Unsupported('unravel_index')


def cumsum(a, axis=None):
    return np_cumsum(asarr(a))


def outer(a, b):
    a, b = asarr(a), asarr(b)
    f, g = a.frozen(), b.frozen()
    return NArr.fromfn((a.shp[0], b.shp[0]), lambda j: f((j[0],)) * g((j[1],)), 'r')


PI = core.realval(math.pi)


# ------------------------------------------------------------ model registry
MODELS = {}         # module name -> module object visible to inference.*


def make_numpy():
    from . import fsmodel
    m = types.ModuleType('numpy')
    d = dict(exp=exp, log=log, sqrt=sqrt, sin=sin, cos=cos, floor=floor, ceil=ceil, log10=log10,
             abs=np_abs, absolute=np_abs, fabs=np_abs, isnan=isnan, isinf=isinf,
             zeros=zeros, ones=ones, empty=empty, zeros_like=zeros_like, ones_like=ones_like,
             empty_like=empty_like, full=full, arange=arange, linspace=linspace,
             identity=identity, eye=identity, fromfunction=fromfunction, concatenate=concatenate,
             hstack=concatenate, shape=shape, size=size, where=where, max=np_max, amax=np_max,
             min=np_min, amin=np_min, maximum=maximum, minimum=minimum, mean=mean,
             array=np_array, asarray=asarray, sum=np_sum, dot=np_dot, inner=np_dot, clip=np_clip,
             argmax=lambda a, axis=None: np_argext(a, True),
             argmin=lambda a, axis=None: np_argext(a, False),
             cumsum=cumsum, all=np_all, any=np_any, atleast_1d=atleast_1d, diff=diff,
             isscalar=isscalar, outer=outer, searchsorted=searchsorted, round=np_round,
             unravel_index=unravel_index, copy=lambda a: asarr(a).copy(),
             ndarray=NArr, newaxis=None, pi=math.pi, nan=float('nan'), inf=float('inf'),
             Inf=float('inf'), float64=SReal, float_=SReal, int_=SInt, int32=SInt, intp=SInt, int64=SInt,
             random=RandomModel('numpy.random'), savez=fsmodel.Savez(), load=fsmodel.npload,
             isfinite=lambda x: not (isnan(x) or isinf(x)),
             prod=lambda a: asarr(a).prod(), ravel=lambda a: asarr(a).ravel(),
             trapz=_unsup('trapz'), interp=_unsup('interp'), errstate=_NullCtx)
    m.__dict__.update(d)
    m.__all__ = list(d)
    return m


class RandomModel(types.ModuleType):
    """numpy.random legacy global generator: state = (id, key, pos, has_gauss, cached)"""
    rng = None

    def _r(self):
        if self.rng is None:
            raise Unsupported('numpy.random')
        return self.rng

    def get_state(self, legacy=True):
        r = self._r()
        if legacy is not True:
            raise Unsupported('get_state(legacy)')
        return (r.id, r.key.copy(), r.pos, r.has, r.cached)

    def set_state(self, st):
        r = self._r()
        st = tuple(st)
        if len(st) not in (3, 5):
            raise ValueError('state is not a legacy MT19937 state')
        if st[0] != 'MT19937':
            raise ValueError('set_state can only be used with legacy MT19937 state instances.')
        key = asarr(st[1])
        if key is None or cint(key.shp[0]) != 624:
            raise ValueError('state must be of length 624')
        if kind(st[2]) != 'i':
            raise TypeError('an integer is required')
        r.key, r.pos = key.copy(), st[2]
        r.has, r.cached = (st[3], st[4]) if len(st) == 5 else (0, SReal(z3.RealVal(0)))
        r.nset += 1

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.random.' + n)


class RNG:
    """an arbitrary generator state"""

    def __init__(self, id='MT19937'):
        self.id = id
        self.nset = 0
        self.draw()

    def draw(self):
        """any number of draws of any kind: the state becomes arbitrary"""
        self.key = NArr.fresh('key', (624,), 'i')
        self.pos, self.has = SInt(CTX.fresh('pos', I)), SInt(CTX.fresh('has', I))
        self.cached = SReal(CTX.fresh('cached', R))

    def snap(self):
        return self.id, self.key.frozen(), toint(self.pos), toint(self.has), toreal(self.cached)

    def same(self, s):
        """the state equals the snapshot"""
        j = CTX.fresh('j', I)
        return z3.And(z3.BoolVal(self.id == s[0]), z3.Implies(z3.And(0 <= j, j < 624), self.key.frozen()((j,)) == s[1]((j,))),
                      toint(self.pos) == s[2], toint(self.has) == s[3], toreal(self.cached) == s[4])


class _NullCtx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _unsup(n):
    def f(*a, **k):
        raise Unsupported('call of ' + n)
    return f


class StatsDist:
    """frozen scipy.stats distribution: cdf/ppf/rvs uninterpreted"""

    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        return StatsDist(self.name)

    def cdf(self, x, *a):
        f = z3.Function('CDF_' + self.name + repr(a), R, R)
        if isinstance(x, NArr):
            return ewise1(x, lambda v: SReal(f(toreal(v))))
        return SReal(f(toreal(x)))

    def ppf(self, p, *a):
        f = z3.Function('PPF_' + self.name + repr(a), R, R)
        if isinstance(p, NArr):
            return ewise1(p, lambda v: SReal(f(toreal(v))))
        return SReal(f(toreal(p)))

    def rvs(self, n=None):
        CTX.assumed.add('scipy.stats.%s.rvs: arbitrary values, no side effect' % self.name)
        if n is None:
            return SReal(CTX.fresh('rvs', R))
        return NArr.fresh('rvs', (n,), 'r')


def make_scipy(npm):
    m = types.ModuleType('scipy')
    m.__path__ = []
    for k in npm.__all__:
        setattr(m, k, getattr(npm, k))
    m.__all__ = list(npm.__all__)
    st = types.ModuleType('scipy.stats')
    st.norm = StatsDist('norm')
    st.chi2 = StatsDist('chi2')
    st.gamma = StatsDist('gamma')
    st.poisson = StatsDist('poisson')
    m.stats = st
    opt = types.ModuleType('scipy.optimize')
    opt.brentq = _unsup('brentq')
    m.optimize = opt
    sp = types.ModuleType('scipy.special')
    sp.gammaln = _uf(lambda x: SReal(lemmas.LGAM(toreal(x))), 'gammaln')
    m.special = sp
    return {'scipy': m, 'scipy.stats': st, 'scipy.optimize': opt, 'scipy.special': sp}


def make_math():
    m = types.ModuleType('math')

    def mlog(x, b=None):
        if CTX.branch(toreal(x) <= 0):
            raise ValueError('math domain error')
        return lemmas.f_log(x)

    def msqrt(x):
        if CTX.branch(toreal(x) < 0):
            raise ValueError('math domain error')
        return lemmas.f_sqrt(x)
    m.__dict__.update(exp=lemmas.f_exp, log=mlog, sqrt=msqrt, pi=math.pi, fabs=abs,
                      floor=lambda x: SInt(z3.ToInt(toreal(x))),
                      ceil=lambda x: SInt(-z3.ToInt(-toreal(x))), isnan=isnan, isinf=isinf,
                      e=math.e, inf=INF, nan=float('nan'))
    return m


NP = None


def install():
    global NP
    NP = make_numpy()
    sc = make_scipy(NP)
    mods = {'numpy': NP, 'numpy.random': NP.random, 'math': make_math()}
    mods.update(sc)
    mpl = types.ModuleType('matplotlib')
    mpl.__path__ = []
    pyp = types.ModuleType('matplotlib.pyplot')
    mpl.pyplot = pyp
    mods.update({'matplotlib': mpl, 'matplotlib.pyplot': pyp, 'pylab': types.ModuleType('pylab')})
    MODELS.update(mods)
    from . import loader, fsmodel
    MODELS.update(fsmodel.models())
    blocked = {'subprocess', 'tempfile', 'glob', 'pathlib', 'socket', 'ctypes', 'multiprocessing', 'threading', 'sys'}

    def vc_import(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in MODELS:
            if fromlist:
                return MODELS[name]
            return MODELS[name.split('.')[0]]
        if level == 0 and name.split('.')[0] in blocked:
            raise Unsupported('import of ' + name)
        return __import__(name, globals, locals, fromlist, level)
    loader.vc_import = vc_import
