import math
import numpy as np
from common import *
from inference.grid.grid1d import BasicGrid1D, Grid1D, LabeledMaxList


class Rec:
    def __init__(self):
        self.got = []

    def update(self, q, label):
        self.got.append((q,) + tuple(label))

    def __len__(self):
        return len(self.got)


def gen(g, i):
    log = g.bool(.4)
    lo = g.pos(1e-2, 10) if log else g.real(-5, 5)
    hi = lo * g.choice([1.5, 3., 50.]) if log else lo + g.pos(.1, 20)
    big = g.choice([0., 0., 300., -300., 9000., -1e5, 1e5])
    kind = g.choice(['basic', 'basic', 'basic', 'refined', 'seq', 'sub'])
    n = g.choice([2, 3, 4, 5, 8, 13, 40])
    if kind == 'refined':
        n = g.choice([10, 25, 60])
    return dict(log=log, lo=lo, hi=hi, n=n, big=big, kind=kind, stored=g.bool(),
                vals=g.reals(n, -4, 4) if g.bool(.8) else [g.real(-900, 3) for _ in range(n)],
                peaks=[[g.real(.05, .95), g.pos(.005, .2), g.real(0, 3)] for _ in range(g.int(1, 3))],
                i=g.int(0, n - 2), j=g.int(1, n - 1), area=g.bool(.3), sel=g.int(0, 2))


def nontrivial(c):
    return c['n'] > 2


def near(a, b, tol=1e-8, scale=0.):
    return math.isfinite(a) and abs(a - b) <= tol * max(1., abs(a), abs(b), scale)


def points(c, lo=None, hi=None, n=None):
    lo, hi, n = c['lo'] if lo is None else lo, c['hi'] if hi is None else hi, n or c['n']
    k = np.arange(n)
    return lo * np.exp(np.log(hi / lo) / (n - 1) * k) if c['log'] else lo + (hi - lo) / (n - 1) * k


def trap(x, f):
    return float(np.sum((x[1:] - x[:-1]) * .5 * (f[1:] + f[:-1])))


def logref(x, v):
    m = v.max()
    f = np.exp(np.clip(v - m, -725., 0.))
    s = trap(x, f)
    return m + math.log(s), trap(x, f * x) / s, trap(x, f * x * x) / s


def call(what, f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        raise Fail('%s: %r' % (what, e), 'C16-fail')


def integrals(what, g, x, v, kw={}):
    sc = float(np.abs(v).max() * abs(x[-1] - x[0]))
    r = call('trapzd', g.trapzd, **kw)
    need(near(r, trap(x, v), scale=sc), '%s: trapzd %r, trapezoid rule %r' % (what, r, trap(x, v)), 'C16-trapzd')
    q, m1, m2 = logref(x, v)
    r = call('logtrapzd', g.logtrapzd, **kw)
    need(near(r, q), '%s: logtrapzd %r, not %r' % (what, r, q), 'C16-logtrapzd')
    xs = float(np.abs(x).max())
    for p in (None, 1, 2):
        r = call('logtrapzd_mom', g.logtrapzd_mom, p, **kw)
        r = (r,) if p is None else tuple(r)
        need(len(r) == 1 + (p or 0), 'number of moments', 'C16-mom')
        need(near(r[0], q), '%s: logtrapzd_mom %r, not %r' % (what, r[0], q), 'C16-mom')
        for a, b, s in zip(r[1:], (m1, m2), (xs, xs * xs)):
            need(near(a, b, scale=s, tol=1e-6 if abs(q) > 1e3 else 1e-8), '%s: moments %r, not %r' % (what, r, (m1, m2)), 'C16-mom')


def check(c):
    x = points(c)
    v = np.array(c['vals']) + c['big']
    st = 'log' if c['log'] else 'linear'
    n = c['n']
    if c['kind'] in ('basic', 'seq', 'sub'):
        seq = c['kind'] == 'seq'
        fx = np.array(sorted(x))
        seen = []

        def f(t):
            seen.append(t)
            k = int(np.argmin(np.abs(x - t)))
            return (v[k] + 1., v[k] * 2, v[k] - 1) if seq else v[k]

        def fv(t):
            if seq:
                return np.array([f(u) for u in t])
            return np.array([f(u) for u in t])
        kw = dict(select=c['sel']) if seq else {}
        mine = (v + 1., v * 2, v - 1)[c['sel']] if seq else v
        labs, out = [], []
        for how in ('step', 'vec'):
            rec = Rec()
            g = call('constructor', BasicGrid1D, c['lo'], c['hi'], n, st, lml=rec, rank='area' if c['area'] else 'peak')
            del seen[:]
            with np.errstate(all='ignore'):
                call(how + 'func', g.stepfunc if how == 'step' else g.vecfunc, f if how == 'step' else fv, **kw)
            need(len(seen) == n and np.allclose(seen, x, rtol=1e-12, atol=1e-12), '%sfunc evaluates at %r, not %r' % (how, seen, list(x)), 'C16-points')
            need(seen[-1] == c['hi'] and seen[0] == c['lo'], '%sfunc ends %r %r' % (how, seen[0], seen[-1]), 'C16-points')
            sv = g.vals[:, c['sel']] if seq else g.vals
            need(np.shape(g.vals) == ((n, 3) if seq else (n,)) and np.array_equal(sv, mine), '%sfunc stored other values' % how, 'C16-vals')
            labs.append(sorted((q, l[0]) if False else (l[0], q) for q, *l in rec.got))
            integrals(how + 'func', g, x, mine, kw)
            for k in (0, c['i'], n - 1):
                p = call('point', g.point, k)
                need(near(p[0], x[k], 1e-11) and near(p[1], (x[k + 1] - x[k]) if k < n - 1 else 0., 1e-10), 'point %d: %r' % (k, p), 'C16-point')
                need(np.all(p[2] == g.vals[k]), 'point %d: %r' % (k, p), 'C16-point')
            for k in (-1, n):
                try:
                    g.point(k)
                    raise Fail('point %d exists' % k, 'C16-point')
                except ValueError:
                    pass
            if c['kind'] == 'sub' and c['i'] < c['j']:
                a, b = c['i'], c['j']
                s = call('subgrid', g.subgrid, float(x[a]) if a else c['lo'], float(x[b]) if b < n - 1 else c['hi'])
                need(s.n == b - a + 1 and np.array_equal(s.vals, v[a:b + 1]), 'subgrid %d..%d' % (a, b), 'C16-sub')
                integrals('subgrid', s, x[a:b + 1], v[a:b + 1])
                if 0 < a:
                    s0 = call('subgrid', g.subgrid, c['lo'], float(x[a]))
                    s1 = call('subgrid', g.subgrid, float(x[a]), c['hi'])
                    tot = g.trapzd()
                    need(near(s0.trapzd() + s1.trapzd(), tot, scale=float(np.abs(v).max()) * (c['hi'] - c['lo'])), 'parts do not add up', 'C16-add')
        fin = lambda l: [(i, q) for i, q in l if math.isfinite(q)]
        a, b = fin(labs[0]), fin(labs[1])
        # (narrow spikes make the fitted peak ill-conditioned: compare which points are peaks)
        need(sorted(i for i, q in labs[0]) == sorted(i for i, q in labs[1]), 'stepfunc and vecfunc offer different maxima: %r %r' % tuple(labs), 'C16-max')
        if not c['area'] and len(a) == len(b):
            need(all(abs(p[1] - q[1]) <= 1e-4 * max(1, abs(p[1])) for p, q in zip(a, b)), 'stepfunc and vecfunc offer different maxima: %r %r' % tuple(labs), 'C16-max')
        return
    # a refined grid
    w = c['hi'] - c['lo']

    def f(t):
        s = sum(math.exp(-.5 * ((t - c['lo'] - u * w) / (sg * w)) ** 2 + h) for u, sg, h in c['peaks'])
        return math.log(s + 1e-200) + c['big']
    g = call('constructor', Grid1D, c['lo'], c['hi'], n, st)
    with np.errstate(all='ignore'):
        call('firstpass', g.firstpass, f)
        integrals('firstpass', g, x, np.array([f(t) for t in x]))
        if not all(math.isfinite(t) for q, l in g.lml for t in l):
            return
        try:
            g.refine()
        except ValueError as e:
            raise Fail('refine: %r' % e, 'C16-refine')
    X, V = [], []
    tz, ls, lm = 0., [], []
    for s in g.glist:
        sx = points(c, s.lo, s.hi, s.n)
        sv = np.array(s.vals)
        need(len(sv) == s.n, 'values per grid', 'C16-parts')
        want = np.array([f(t) for t in sx])
        # a spike narrower than its grid makes the value very sensitive to the abscissa
        need(np.all(np.abs(sv - want) <= 1e-3 * np.maximum(1., np.abs(want))), 'samples are not those of the function', 'C16-vals')
        tz += trap(sx, sv)
        ls.append(logref(sx, sv))
    sc = max(abs(np.array(s.vals)).max() for s in g.glist) * w
    need(near(g.trapzd(), tz, scale=sc), 'refined trapzd %r, sum over the parts %r' % (g.trapzd(), tz), 'C16-parts')
    m = max(q for q, _, _ in ls)
    wts = [math.exp(q - m) for q, _, _ in ls]
    q = m + math.log(math.fsum(wts))
    r = call('logtrapzd', g.logtrapzd)
    need(near(r, q), 'refined logtrapzd %r, not %r' % (r, q), 'C16-parts')
    r = call('logtrapzd_mom', g.logtrapzd_mom)
    need(near(r, q), 'refined logtrapzd_mom() %r, not %r' % (r, q), 'C16-parts')
    xs = max(abs(c['lo']), abs(c['hi']))
    for p in (1, 2):
        r = call('logtrapzd_mom', g.logtrapzd_mom, p)
        need(len(r) == p + 1 and near(r[0], q), 'refined moments %r' % (r,), 'C16-mom')
        for k in range(1, p + 1):
            mk = math.fsum(a * l[k] for a, l in zip(wts, ls)) / math.fsum(wts)
            need(near(r[k], mk, scale=xs ** k, tol=1e-6 if abs(q) > 1e3 else 1e-8), 'refined moment %d: %r, not %r' % (k, r, mk), 'C16-mom')
    pts = list(g)
    need(len(pts) == len(g), 'iteration gives %d of %d points' % (len(pts), len(g)), 'C16-iter')
    s, ys = 0., 0.
    for a, b in zip(pts, pts[1:]):
        need(b[0] > a[0] - 1e-12 * xs, 'iteration not in order', 'C16-iter')
        s += .5 * (b[0] - a[0]) * (a[2] + b[2])
    need(abs(s - tz) <= 1e-6 * max(sc, 1.), 'trapezoid rule of the points %r, trapzd %r' % (s, tz), 'C16-iter')
