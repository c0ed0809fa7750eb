"""The package's compiled modules, from their Fortran source: translated
(engine/f77.py), bound as f2py binds them, run symbolically."""
import os, re, types
import z3
from .core import *
from . import f77, loader
from .arr import NArr, np_array, zint, dkind


def f_int(x):
    """assignment of a real to an integer truncates toward zero"""
    if isinstance(x, SInt) or isinstance(x, int):
        return x
    return SInt(ftrunc(toreal(x)))


def f_real(x):
    return SReal(toreal(x))


def f_idiv(a, b):
    a, b = toint(a), toint(b)
    if CTX.branch(b == 0):
        raise ZeroDivisionError('integer division by zero')
    q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
    return SInt(z3.If((a >= 0) == (b >= 0), q, -q))


def f_mod(a, b):
    if any(isinstance(v, (float, SReal)) for v in (a, b)):
        raise Unsupported('real remainder')
    return a - b * f_idiv(a, b)


def f_pow(a, b):
    return a ** b


def f_ix(i):
    if i < 0:
        raise IndexError('Fortran subscript below the lower bound')
    return i


def f_undef(k):
    """a variable that was never set: any value"""
    if k == 'i':
        return SInt(CTX.fresh('undef', z3.IntSort()))
    if k == 'l':
        return SBool(CTX.fresh('undef', z3.BoolSort()))
    return SReal(CTX.fresh('undef', z3.RealSort()))


def _uns(*a):
    raise Unsupported('Fortran intrinsic')


def f_local(sh, k):
    return NArr.fresh('local', tuple(sh), 'r' if k == 'r' else 'i', inp=False)


HELP = dict(f_int=f_int, f_real=f_real, f_idiv=f_idiv, f_pow=f_pow, f_rpow=_uns, f_ix=f_ix, f_undef=f_undef, f_local=f_local,
            f_nint=_uns, f_mod=f_mod, f_sign=_uns, f_saved=f77.Saved)


def h_array(v, ty, nd):
    k = 'r' if ty == 'r' else 'i'
    if isinstance(v, NArr) and v.store.k == k:
        if v.ndim != nd:
            raise ValueError('failed to create array')
        return v                    # passed by reference
    v = np_array(v, float if k == 'r' else int)
    if v.ndim != nd:
        raise ValueError('failed to create array')
    return v


def h_callback(f, c):
    ins = [a for a in c.order if 'in' in c.args[a].intent]
    req = [a for a in ins if not c.args[a].optional]

    def cb(*args):
        env = dict(zip(ins, args))
        r = f(*[env[a] for a in req])
        return SReal(toreal(r._vc_scalar() if isinstance(r, NArr) else r))
    return cb


def h_fits(a, k, d):
    if a.shape[k] < d:
        raise ValueError('0-th dimension must be fixed')


def h_int(v):
    if isinstance(v, (SReal, float)):
        return f_int(v)
    return SInt(toint(v))


HOOKS = dict(real=lambda v: SReal(toreal(v._vc_scalar() if isinstance(v, NArr) else v)), int=h_int, array=h_array, callback=h_callback, fits=h_fits,
             newarray=lambda sh, ty: NArr.fresh('out', tuple(sh), 'r' if ty == 'r' else 'i', inp=False),
             shape=lambda a, k: a.shape[k])


class FModule(types.ModuleType):
    pass


_text = {}


def namespace(rel, extra=None):
    """(translation, namespace) of a Fortran file of the package"""
    path = os.path.join(loader.PKG, 'inference', rel)
    src = open(path).read()
    if src not in _text:
        _text[src] = f77.Translate(src).text
    ns = loader.load_text(_text[src], 'f77_' + os.path.basename(rel)[:-2].strip('_'), HELP)
    ns.update(extra or {})
    return ns


def module(name, rel, pyf=None, extra=None):
    """module object with the Python-visible routines of the Fortran file"""
    path = os.path.join(loader.PKG, 'inference', rel)
    sig = open(os.path.join(loader.PKG, 'inference', pyf)).read() if pyf else None
    tr, sigs = f77.signatures(open(path).read(), sig)
    ns = namespace(rel, extra)
    m = FModule(name)
    m.__dict__['ns'] = ns
    for n, r in sigs.items():
        setattr(m, n, f77.bind(tr, r, ns, HOOKS))
    return m


FILES = {'inference.grid._gridquad': ('grid/_gridquad.f', None), 'inference.count._cbmlike': ('count/_cbmlike.f', 'count/_cbmlike.pyf'),
         'inference.deriv._obsinfo': ('deriv/_obsinfo.f', 'deriv/_obsinfo.pyf')}


def use(name, extra=None):
    """make imports of the compiled module `name` give its translation"""
    rel, pyf = FILES[name]
    loader.EXT[name] = lambda: module(name, rel, pyf, extra)
