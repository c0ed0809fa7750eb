import math, os, sys
import numpy as np
from common import *
import inference
pk = os.path.join(os.path.dirname(inference.__file__), 'integrate')
import types
if 'inference.integrate' not in sys.modules:      # the extensions first, so that every later import sees the recorder
    p = types.ModuleType('inference.integrate')
    p.__path__ = [pk]
    sys.modules['inference.integrate'] = p
import inference.integrate._adapt as _a
import inference.integrate._dcuhre as _d
REAL = dict(adapt=_a.adapt, dcuhre=_d.dcuhre)
MODE = dict(stub=None, log=[])


def route(name):
    def f(*a, **k):
        MODE['log'].append((name, a, k))
        if MODE['stub']:
            return MODE['stub'](*a, **k)
        return REAL[name](*a, **k)
    return f


_a.adapt, _d.dcuhre = route('adapt'), route('dcuhre')
del sys.modules['inference.integrate']
if hasattr(inference, 'integrate'):
    del inference.integrate
sys.modules['inference.integrate._adapt'], sys.modules['inference.integrate._dcuhre'] = _a, _d
from inference.integrate import adapt as adapt_, adapt_vec as vec_
adapt = getattr(adapt_, 'adapt', adapt_)
adapt_vec = getattr(vec_, 'adapt_vec', vec_)
CASE_S = 20


def gen(g, i):
    kind = g.choice(['stub', 'vstub', 'real', 'vreal', 'real', 'vreal'])
    n = g.choice([2, 2, 3, 4, 5]) if 'real' in kind else g.choice(list(range(2, 16)))
    if g.bool(.06):
        n = g.choice([1, 16 if kind[0] == 'v' else 21])
    lo = [g.real(-3, 3) for _ in range(n)]
    return dict(kind=kind, n=n, lo=lo, hi=[l + g.pos(.1, 4)  for l in lo], acc=g.choice([1e-3, 1e-5, 1e-7, g.pos(1e-6, .5), 1e-14]),
                abs=g.choice([0., 0., 1e-6, 1e-3]), fac=g.choice([None, None, 1, 2, 5, 30, 300, 100]), wrk=g.choice([None, 1, 1, 2, 5]), nf=g.choice([1, 2, 3, 5]),
                key=g.choice([None, 0, 3, 4, 1, 2, 3, 4, 5, -1]), minpts=g.choice([None, 0, 0, 100, 2000]), maxpts=g.choice([None, None, 300, 1000, 20000, g.int(50, 30000)]),
                ifail=g.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, -1, 50]), res=[g.real(-5, 5) for _ in range(6)], npts=g.int(1, 10 ** 6), kindf=g.choice(['poly', 'gauss', 'exp', 'peak', 'const']),
                c=[g.real(-1.5, 1.5) for _ in range(6)], seq=g.choice(['list', 'array', 'tuple', 'int']), boom=g.int(1, 200) if g.bool(.05) else None)


def limits(case):
    lo, hi = list(case['lo']), list(case['hi'])
    if case['seq'] == 'int':
        lo, hi = [int(round(v)) for v in lo], [int(round(v)) + 1 for v in hi]
    if case['seq'] == 'array':
        return np.array(lo), np.array(hi)
    return (tuple(lo), tuple(hi)) if case['seq'] == 'tuple' else (lo, hi)


def integrand(kind, c):
    """factors (f, antiderivative) of a product function"""
    if kind == 'const':
        return lambda t: 1. + 0 * t, lambda t: t
    if kind == 'poly':
        return lambda t: 1 + c * t + t * t, lambda t: t + c * t * t / 2 + t ** 3 / 3
    if kind == 'exp':
        return lambda t: math.exp(c * t), lambda t: math.exp(c * t) / c if c else t
    w = 1. if kind == 'gauss' else 6.
    return lambda t: math.exp(-(w * (t - c)) ** 2), lambda t: math.sqrt(math.pi) / 2 / w * math.erf(w * (t - c))


def rule(key, n):
    if key in (0, 1) and n == 2:
        return 65
    if key in (0, 2) and n == 3:
        return 127
    if key == 4:
        return 1 + 6 * n + 2 * n * (n - 1) + 2 ** n
    return 1 + 8 * n + 6 * n * (n - 1) + 4 * n * (n - 1) * (n - 2) // 3 + 2 ** n


def bind(a, kw, names):
    names = names.split()
    d = dict(zip(names, a), **kw)
    return [d[n] for n in names] if len(a) <= len(names) and set(d) == set(names) else None


class Boom(Exception):
    pass


def check(case):
    n, k = case['n'], case['kind']
    lo, hi = limits(case)
    l0, h0 = [float(v) for v in lo], [float(v) for v in hi]
    MODE['log'], MODE['stub'] = [], None
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        (scalar if k in ('stub', 'real') else vector)(case, n, k, lo, hi, l0, h0)
    finally:
        sys.stdout.close()
        sys.stdout = out
        MODE['stub'] = None
    need([float(v) for v in lo] == l0 and [float(v) for v in hi] == h0, 'the limits given by the caller were modified')


def scalar(case, n, k, lo, hi, l0, h0):
    fac, wrk = case['fac'], case['wrk']
    kw = {}
    if fac is not None:
        kw['maxfac'] = fac
    if wrk is not None:
        kw['wrkfac'] = wrk
    fac, wrk = fac or 100, wrk or 1
    r = 2 ** n + 2 * n * n + 6 * n + 1
    if k == 'stub':
        res = case['res']
        MODE['stub'] = lambda *a, **kk: (case['npts'], res[0], res[1], case['ifail'])
        f = lambda x: 2.
        try:
            v = adapt(f, lo, hi, case['acc'], **kw)
        except (RuntimeError, ValueError):
            need(case['ifail'] != 0 or not MODE['log'], 'a success reported by the routine was refused')
            if not MODE['log']:
                need(not 2 <= n <= 20, 'an admissible request was refused without trying')
            v = 'raised'
        else:
            need(MODE['log'], 'a value was returned without calling the routine')
            need(case['ifail'] == 0, 'the routine reported failure ifail=%d but %r was returned' % (case['ifail'], v))
            need(tuple(v) == (res[1], res[0], case['npts']), 'returned %r, the routine gave (result, err, npts) = %r' % (v, (res[1], res[0], case['npts'])))
    else:
        calls = []
        fs = [integrand(case['kindf'], case['c'][j % 6]) for j in range(n)]
        bad = []

        def f(x):
            calls.append(1)
            if case['boom'] and len(calls) >= case['boom']:
                raise Boom()
            if len(x) != n or any(not min(a, b) - 1e-9 <= t <= max(a, b) + 1e-9 for t, a, b in zip(x, l0, h0)):
                bad.append(list(x))
            return math.prod(g[0](t) for g, t in zip(fs, x))
        try:
            v = adapt(f, lo, hi, case['acc'], **kw)
        except (RuntimeError, ValueError, Boom):
            v = None
        else:
            need(v is not None, 'returned None (no result, no error)')
            true = math.prod(g[1](b) - g[1](a) for g, a, b in zip(fs, l0, h0))
            need(2 <= n <= 20, 'a result for %d dimensions' % n)
            need(v[1] < case['acc'] or v[1] == 0, 'returned as converged with relative error estimate %g, %g asked for' % (v[1], case['acc']))
            # ADAPT does not count the centre of each region
            need(v[2] <= len(calls) <= 1.2 * v[2] + 2, '%d evaluations reported, %d made' % (v[2], len(calls)))
            if case['kindf'] in ('poly', 'const'):
                need(abs(v[0] - true) <= (1e-6 + 30 * case['acc'] + case['abs']) * max(1., abs(true), math.prod(abs(b - a) for a, b in zip(l0, h0))), 'integral %r, should be %r' % (v[0], true))
            elif n <= 3 and case['kindf'] != 'peak' and abs(true) > 1e-12:
                need(abs(v[0] - true) <= (.02 + 300 * case['acc']) * abs(true), 'integral %r, should be %r' % (v[0], true))
        need(not bad, 'integrand evaluated outside the region, at %r' % bad[:1])
    for nm, a, kk in MODE['log']:
        if nm != 'adapt':
            continue
        a = bind(a, kk, 'a b minpts maxpts functn eps lenwrk')
        if a is None:
            continue
        need([float(t) for t in a[0]] == l0 and [float(t) for t in a[1]] == h0, 'limits passed %r %r' % (a[0], a[1]))
        need(a[3] == fac * r, 'budget passed %r instead of %d' % (a[3], fac * r))
        need(0 <= a[2] <= a[3], 'minimum number of points passed: %r' % a[2])
        need(a[5] == case['acc'], 'tolerance passed: %r' % a[5])
        need(2 * int(a[6]) >= (2 * n + 3) * (1 + fac) - 1, 'workspace passed: %r' % a[6])


def vector(case, n, k, lo, hi, l0, h0):
    nf = case['nf']
    kw = {}
    for a, b in (('abseps', 'abs'), ('key', 'key'), ('minpts', 'minpts'), ('maxpts', 'maxpts')):
        if case[b] is not None:
            kw[a] = case[b]
    key, mx, mn = kw.get('key', 0), kw.get('maxpts', 100000), kw.get('minpts', 0)
    legal = 2 <= n <= 15 and (key in (0, 3, 4) or key == 1 and n == 2 or key == 2 and n == 3)
    if k == 'vstub':
        rs, es = np.array(case['res'][:nf]), np.array(case['res'][:nf]) ** 2
        MODE['stub'] = lambda *a, **kk: (rs, es, case['npts'], case['ifail'])
        f = lambda x, m, r: None
        try:
            v = adapt_vec(nf, f, lo, hi, case['acc'], **kw)
        except (ValueError, RuntimeError):
            need(case['ifail'] != 0 or not MODE['log'], 'a success reported by the routine was refused')
            if not MODE['log'] and legal:
                need(mx < 3 * rule(key, n), 'an admissible request was refused without trying')
        else:
            need(MODE['log'], 'a value was returned without calling the routine')
            need(case['ifail'] == 0, 'the routine reported failure ifail=%d but %r was returned' % (case['ifail'], v))
            need(list(v[0]) == case['res'][:nf] and list(v[1]) == [t ** 2 for t in case['res'][:nf]] and v[2] == case['npts'], 'results of the routine were changed: %r' % (v,))
    else:
        calls, bad = [], []
        fs = [[integrand(case['kindf'] if m == 0 else 'poly', case['c'][(j + m) % 6]) for j in range(n)] for m in range(nf)]

        def f(x, m, r):
            calls.append(1)
            if case['boom'] and len(calls) >= case['boom']:
                raise Boom()
            if len(x) != n or any(not min(a, b) - 1e-9 <= t <= max(a, b) + 1e-9 for t, a, b in zip(x, l0, h0)):
                bad.append(list(x))
            for i in range(nf):
                r[i] = math.prod(g[0](t) for g, t in zip(fs[i], x))
        try:
            v = adapt_vec(nf, f, lo, hi, case['acc'], **kw)
        except (ValueError, RuntimeError, Boom):
            v = None
        else:
            need(v is not None, 'returned None (no result, no error)')
            need(legal, 'a result for an illegal dimension or key')
            need(v[2] == len(calls), '%d evaluations reported, %d made' % (v[2], len(calls)))
            need(len(calls) <= mx, '%d evaluations made, at most %d allowed' % (len(calls), mx))
            for i in range(nf):
                true = math.prod(g[1](b) - g[1](a) for g, a, b in zip(fs[i], l0, h0))
                need(v[1][i] <= max(case['abs'], abs(v[0][i]) * case['acc']) * (1 + 1e-12), 'returned as converged with error estimate %g for %g' % (v[1][i], v[0][i]))
                vol = math.prod(abs(b - a) for a, b in zip(l0, h0))
                if case['kindf'] in ('poly', 'const') or i:
                    need(abs(v[0][i] - true) <= (1e-6 + 30 * case['acc'] + case['abs']) * max(1., abs(true), vol), 'integral %r, should be %r' % (v[0][i], true))
                elif n <= 3 and case['kindf'] != 'peak' and abs(true) > 1e-12:
                    need(abs(v[0][i] - true) <= (.02 + 300 * case['acc']) * abs(true) + 100 * case['abs'], 'integral %r, should be %r' % (v[0][i], true))
        need(not bad, 'integrand evaluated outside the region, at %r' % bad[:1])
    for nm, a, kk in MODE['log']:
        if nm != 'dcuhre':
            continue
        a = bind(a, kk, 'numfun a b minpts maxpts funsub epsabs epsrel key restar result work')
        if a is None:
            continue
        need(a[0] == nf and [float(t) for t in a[1]] == l0 and [float(t) for t in a[2]] == h0, 'functions and limits passed: %r' % (a[:3],))
        need(a[3] == mn and a[4] == mx and a[6] == case['abs'] and a[7] == case['acc'] and a[8] == key and a[9] == 0, 'arguments passed: %r' % (a[3:10],))
        num = rule(key, n)
        if mx >= 3 * num:
            need(len(a[11]) >= ((mx - num) // (2 * num) + 1) * (2 * n + 2 * nf + 2) + 17 * nf + 1, 'workspace passed: %d' % len(a[11]))


def nontrivial(case):
    return 'real' in case['kind'] or case['ifail'] == 0
