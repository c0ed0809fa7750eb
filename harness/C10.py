import math
import numpy as np
from common import *
from inference.utils import nrmin


class Budget(Exception):
    pass


def shape(kind, t, c):
    """coercive functions of one variable"""
    if kind == 0:
        return c * t * t
    if kind == 1:
        return c * (t * t - 1) * (t * t - 1) + 0.1 * t
    if kind == 2:
        return c * abs(t)
    if kind == 3:
        return max(0., abs(t) - c)
    if kind == 4:
        return t * t + 2 * c * math.cos(3 * t)
    if kind == 5:
        return c * t * t if t > 0 else -t * 3
    if kind == 6:
        return -1. / (1 + c * t * t) + 1e-3 * abs(t)
    return math.floor(c * abs(t)) + 1e-3 * abs(t)


def gen(g, i):
    what = g.choice(('bracket', 'brent', 'linmin', 'powell', 'powell'))
    n = 1 if what in ('bracket', 'brent') else g.int(1, 4)
    c = dict(what=what, kind=[g.int(0, 7) for _ in range(n)], c=[g.pos(1e-2, 1e2) for _ in range(n)],
             x0=g.reals(n, -5, 5), s=[g.pos(1e-2, 1e2) for _ in range(n)], off=g.real(-3, 3), cross=g.real(0, 1) if g.bool() else 0.)
    if g.bool(.3):
        c['kind'] = [0] * n
    c['a'] = g.reals(n, -5, 5)
    c['b'] = g.reals(n, -5, 5)
    if g.bool(.2):
        c['b'] = [x + g.real(-1, 1) * 10 ** g.real(-6, 2) for x in c['a']]
    if g.bool(.15):
        c['a'] = [float(x) for x in c['x0']]
    if what == 'linmin':
        c['b'] = [x if abs(x) > 1e-3 else 1e-3 for x in c['b']]
    c['tol'] = 10 ** g.real(-7, -1)
    c['maxit'] = g.choice((100, 100, 200, 5, 30))
    if what == 'powell':
        c['dirs'] = None if g.bool(.6) else [[x if abs(x) > 1e-3 else 1e-3 for x in g.reals(n, -2, 2)] for _ in range(n)]
        c['shuffle'] = g.bool(.3)
        c['ftol'] = g.choice((1e-6, 1e-3, 1e-10, .1))
    return c


def check(c):
    n, calls = len(c['kind']), []

    def F(v):
        t = [(float(v[j]) - c['x0'][j]) / c['s'][j] for j in range(n)]
        r = sum(shape(c['kind'][j], t[j], c['c'][j]) for j in range(n)) + c['off']
        if n > 1:
            r += c['cross'] * (t[0] - t[1]) * (t[0] - t[1])
        return r

    def f(v):
        calls.append([float(x) for x in v])
        if len(calls) > 60000 or not all(abs(float(x)) < 1e60 for x in v):
            raise Budget()      # does not end (flat along a direction): no result to judge
        return F(v)
    f1 = lambda x: f([x])
    F1 = lambda x: F([x])
    if c['what'] in ('bracket', 'brent'):
        a, b = c['a'][0], c['b'][0]
        if a == b:
            return
        try:
            o = nrmin.MinBracket(f1, a, b)
        except (Budget, OverflowError, ZeroDivisionError):
            return
        need(o.x1 <= o.xm <= o.x2, 'bracket %r %r %r is not ordered', o.x1, o.xm, o.x2)
        need(o.fm <= o.f1 and o.fm <= o.f2, 'bracket values %r %r %r', o.f1, o.fm, o.f2)
        need((o.f1, o.fm, o.f2) == (F1(o.x1), F1(o.xm), F1(o.x2)), 'stored values are not the function at the points')
        need(o.fm <= min(F1(a), F1(b)), 'middle value %r above the starting values', o.fm)
        if c['what'] == 'bracket' or not o.x1 < o.x2 or not math.isfinite(o.x1 + o.x2):
            return
        x1, xm, x2 = o.x1, o.xm, o.x2
        del calls[:]
        try:
            x, fx = nrmin.brent(f1, o, c['tol'], c['maxit'])
        except (nrmin.IterErr, Budget):
            x = None
        e = 1e-12 * max(abs(x1), abs(x2)) + 1e-12 * (x2 - x1)
        for v in calls:
            need(x1 - e <= v[0] <= x2 + e, 'evaluated at %r outside the bracket [%r, %r]', v[0], x1, x2)
        if x is not None:
            need(x1 - e <= x <= x2 + e, 'returned %r outside the bracket', x)
            need(fx == F1(x), 'returned value %r is not the function %r', fx, F1(x))
            need(fx <= F1(xm), 'returned %r above the middle of the bracket', fx)
            need(fx <= min(F(v) for v in calls), 'returned %r is not the smallest value seen, %r', fx, min(F(v) for v in calls))
            if c['kind'][0] in (0, 2) and x1 <= c['x0'][0] <= x2:
                # one minimum: within twice the tolerance, and what rounding of the values hides
                s, cc, off = c['s'][0], c['c'][0], abs(c['off']) + 1e-9
                res = math.sqrt(1e-13 * off / cc) if c['kind'][0] == 0 else 1e-13 * off / cc
                lim = 2 * (c['tol'] * abs(x) + 1e-10) * (1 + 1e-6) + 4 * s * res + 1e-12 * abs(x)
                need(abs(x - c['x0'][0]) <= lim, 'returned %r is not within %g of the minimum at %r', x, lim, c['x0'][0])
        return
    p = np.array(c['a'])
    p0 = p.copy()
    try:
        if c['what'] == 'linmin':
            d = np.array(c['b'])
            if not d.any():
                return
            q, dd, fq = nrmin.linmin(f, p, d, tol=c['tol'])
        else:
            ds = None if c['dirs'] is None else np.array(c['dirs'])
            q, fq, it = nrmin.powell(f, p, ds, c['ftol'], c['maxit'], None, c['shuffle'])
    except (nrmin.IterErr, Budget):
        need((p == p0).all(), 'starting point modified')
        return
    if c['what'] == 'linmin':
        need((d == np.array(c['b'])).all(), 'direction modified')
    need((p == p0).all(), 'starting point modified')
    need(fq == F(q), 'returned value %r is not the function %r at the returned point', fq, F(q))
    need(fq <= F(p0), 'returned value %r above the start %r', fq, F(p0))
