import math
import numpy as np
from common import *
from inference.grid import hpd, hpdgrid
try:
    from inference.grid._gridquad import xvalues
except ImportError:
    xvalues = None


def gen(g, i):
    dim = g.choice([1, 1, 2])
    n = [g.choice([2, 3, 5, 9, 14, 30]) for _ in range(dim)]
    log = [g.bool(.4) for _ in range(dim)]
    ends = []
    for k in range(dim):
        lo = g.real(.1, 3.) if log[k] else g.real(-5., 5.)
        ends.append((lo, lo + g.choice([.01, 1., 10., 300.]) * g.real(.5, 1.)))
    kind = g.choice(['bump', 'bump', 'levels', 'rough', 'flat', 'deep'])
    scale = g.choice([.01, 1., 5., 30.])
    off = g.choice([0., 0., 500., -3000.])
    m = int(np.prod(n))
    if kind == 'levels':
        lev = [g.real(-3., 0.) for _ in range(3)]
        t = [g.choice(lev) for _ in range(m)]
    elif kind == 'rough':
        t = [g.real(-1., 0.) * scale for _ in range(m)]
    elif kind == 'flat':
        t = [0.] * m if g.bool() else [g.real(-1e-3, 0.) for _ in range(m)]
    elif kind == 'deep':
        t = [g.real(-2000., 0.) for _ in range(m)]
    else:
        c, w = [g.real(0., 1.) for _ in n], [g.real(.05, .6) for _ in n]
        t = [-.5 * sum(((j / max(s - 1, 1) - a) / b) ** 2 for j, s, a, b in zip(np.unravel_index(q, n), n, c, w)) for q in range(m)]
    if g.bool(.1):                      # many crossings
        t = [v if q % 2 else v - 1. for q, v in enumerate(t)]
    return dict(dim=dim, n=n, log=log, ends=ends, t=[v + off for v in t], cls=g.choice(['table', 'function']),
                steps=[g.choice(['linear', 'lin']) if not l else g.choice(['log', 'logarithmic']) for l in log],
                p=sorted(g.choice([.05, .5, .683, .9, .954, .9973]) if g.bool(.7) else g.real(.01, .999) for _ in range(g.choice([1, 2, 3]))),
                tol=g.choice([None, None, 1e-6, .02]), snsig=g.choice([None, None, None, 1., 2., 3.]), lrs=[g.real(-8., .5) for _ in range(2)],
                yc=g.choice(range(m)), nmax=g.choice([1, 2, 3, 5, 10]))


def nontrivial(c):
    return max(c['n']) > 2


def seg(a, b, c):
    """integral over the cells where the line exceeds c"""
    hi, lo = np.maximum(a, b), np.minimum(a, b)
    with np.errstate(all='ignore'):
        part = (hi - c) / (hi - lo) * (hi + c) / 2
    return np.where(lo > c, (a + b) / 2, np.where(hi > c, part, 0.))


def quad(s, c):
    if s.ndim == 1:
        return float(seg(s[:-1], s[1:], c).sum())
    r = seg(s[:, :-1], s[:, 1:], c).sum(axis=1)
    r[0], r[-1] = r[0] / 2, r[-1] / 2
    return float(r.sum())


def crossings(x, y, c):
    out = []
    for a, b, u, v in zip(x, x[1:], y, y[1:]):
        if (u > c) != (v > c):
            out.append(a + (b - a) * (c - u) / (v - u))
    return out


def points(lo, hi, n, log):
    return [lo * (hi / lo) ** (k / (n - 1.)) if log else lo + (hi - lo) * k / (n - 1.) for k in range(n)]


def near(a, b, s=1.):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), s)


def chi(d, s):
    from scipy.stats import chi2
    return float(chi2.cdf(s * s, d))


def check(case):
    dim, n, log = case['dim'], case['n'], case['log']
    xs = [points(lo, hi, k, l) for (lo, hi), k, l in zip(case['ends'], n, log)]
    L = np.array(case['t'], float).reshape(n)
    keep = L.copy()
    top = L.max()
    S = L - top
    for k in range(dim):
        if log[k]:
            S = S + np.log(np.array(xs[k]).reshape([-1 if j == k else 1 for j in range(dim)]))
    s = np.exp(S)
    cell = 1.
    for (lo, hi), k, l in zip(case['ends'], n, log):
        cell *= (math.log(hi / lo) if l else hi - lo) / (k - 1)
    full = quad(s, -1.) if dim == 1 else quad(s, -1.)
    (a, b), rest = case['ends'][0], case['ends'][1:]
    if case['cls'] == 'table':
        args = [L, a, b] + [v for e in rest for v in e]
        h = (hpd.HPD1D if dim == 1 else hpd.HPD2D)(*(args + case['steps']))
    else:
        def f(*x):
            j = tuple(int(np.argmin(np.abs(np.array(xx) - v))) for xx, v in zip(xs, x))
            need(all(abs(xx[q] - v) <= 1e-9 * max(abs(v), 1e-9, xx[-1] - xx[0]) for xx, q, v in zip(xs, j, x)), 'the density is evaluated at %r, which is not a grid point' % (x,))
            return L[j]
        args = [f, a, b, n[0]] + [v for e, k in zip(rest, n[1:]) for v in (e[0], e[1], k)]
        h = (hpdgrid.HPDGrid1D if dim == 1 else hpdgrid.HPDGrid2D)(*(args + case['steps']))
    want = math.log(full * cell) + top
    need(near(h.lml, want), 'log normalisation %r, the integral of the table gives %r' % (h.lml, want))
    if dim == 1:
        need(near(h.norm(), want), 'norm() %r, the integral of the table gives %r' % (h.norm(), want))
    need(near(h.fracgt(-3000.), 1.), 'the normalised density integrates to %r' % h.fracgt(-3000.))
    frac = lambda lr: quad(s, math.exp(lr)) / full
    for lr in case['lrs']:
        got, lo, hi = h.fracgt(lr), frac(lr + 1e-9), frac(lr - 1e-9)       # (a plateau at the very level: either side)
        need(lo - 1e-9 <= got <= hi + 1e-9, 'fraction above log level %r: %r, expected %r' % (lr, got, frac(lr)))
    todo = [('p', p) for p in case['p']] + ([('snsig', case['snsig'])] if case['snsig'] else [])
    got = []
    for kind, v in todo:
        kw = {kind: v}
        if case['tol']:
            kw['tol'] = case['tol']
        p = v if kind == 'p' else chi(1, v)
        try:
            r = h.critlevel(**kw)
        except RuntimeError as e:
            if dim == 1 and 'boundary' in str(e):
                # legitimate only if some level with the right fraction has more than ten bounds
                lr = h.deltas[-1]
                need(len(crossings(xs[0], list(S), lr)) > 10, 'critlevel refused a level with %d bounds' % len(crossings(xs[0], list(S), lr)))
                continue
            raise Fail('critlevel(%s=%r) found no level: %s' % (kind, v, e))
        lr = r[0] if dim == 1 else r
        need(np.ndim(lr) == 0, 'level is not a number: %r' % (lr,))
        d = (case['tol'] or 3e-4) * 1.001 + 1e-12 * abs(lr)
        need(frac(lr - d) >= p - 1e-9 and frac(lr + d) <= p + 1e-9,
             'log level %r for probability %r encloses %r (%r to %r within the tolerance)' % (lr, p, frac(lr), frac(lr - d), frac(lr + d)))
        need(h.probs[-1] == p or near(h.probs[-1], p), 'recorded probability %r, asked for %r' % (h.probs[-1], p))
        need(near(h.levels[-1], top + lr), 'recorded level %r, expected %r' % (h.levels[-1], top + lr))
        need(near(h.deltas[-1], lr), 'recorded log ratio %r, expected %r' % (h.deltas[-1], lr))
        got.append((p, lr, d))
        if dim == 1:
            b = [float(t) for t in r[1]]
            want = crossings(xs[0], list(S), lr)
            close = min(abs(t - lr) for t in S) > 1e-9
            if close:
                need(len(b) == len(want), 'bounds %r, the density crosses the level at %r' % (b, want))
            for u, w in zip(b, want if close else b):
                need(abs(u - w) <= 1e-7 * (xs[0][-1] - xs[0][0]), 'bounds %r, the density crosses the level at %r' % (b, want))
            need(len(h.bounds) and list(h.bounds[-1]) == list(r[1]), 'recorded bounds %r, returned %r' % (h.bounds[-1], b))
    for p, lr, d in got:
        for q, lr2, d2 in got:
            need(not p < q or lr2 <= lr + d + d2, 'probability %r has log level %r, but %r has %r' % (p, lr, q, lr2))
    need(np.array_equal(L, keep), 'the caller\'s table was modified')
    if dim == 1 and xvalues is not None:
        y = np.array(S)
        yc = float(y[case['yc']])
        want = crossings(xs[0], list(y), yc)
        b, nb, ok = xvalues(np.array(xs[0]), y, yc, case['nmax'])
        need(bool(ok) == (len(want) <= case['nmax']), '%d crossings, room for %d: ok is %r' % (len(want), case['nmax'], ok))
        if ok:
            need(nb == len(want) and all(abs(u - w) <= 1e-9 * (xs[0][-1] - xs[0][0]) for u, w in zip(b, want)), 'crossings %r, expected %r' % (list(b[:nb]), want))
