from common import *
from piemodels import *


def gen(g, i):
    lo = g.choice((0., g.real(-10, 10), g.real(-1e6, 1e6)))
    hi = lo + g.pos(1e-3, 1e6)
    us = [g.choice((0., g.real(-5, 5), g.real(-5, 5), g.real(-40, 40), g.real(-800, 800), g.real(690, 715), 1e5, -1e5)) for _ in range(g.int(1, 5))]
    return dict(r=[lo, hi], us=us, f=g.choice((.5, g.uniform(.001, .999))), st=g.int(0, 2))


def check(c):
    lo, hi = c['r']
    inf = inference(1)
    p = hnd(inf, 'a')
    v0 = lo + c['f'] * (hi - lo)
    p.vary(v0, .1, (lo, hi))
    w = hi - lo
    eps = 4e-16 * (abs(lo) + abs(hi))
    if lo < v0 < hi:
        u = p._unbounded_get_value()
        need(p.get_value() == v0, 'reading changed the value')
        need(close(u, math.log(v0 - lo) - math.log(hi - v0), 1e-9, 1e-9), 'coordinate %r', u)
        p._unbounded_set_value(u)
        need(abs(float(inf.a) - v0) <= 1e-12 * w + 4 * eps, 'set(get()) moved %r to %r', v0, float(inf.a))
    prev = None
    for u in sorted(c['us']):
        p._unbounded_set_value(u)
        v = float(inf.a)
        need(v == v and lo <= v <= hi, 'u=%r gives %r outside [%r,%r]', u, v, lo, hi)
        need(p.status == VARYING and p.lo == lo and p.hi == hi, 'state')
        e = lo + w / (1 + math.exp(-u)) if u > -700 else lo
        need(abs(v - e) <= 1e-9 * w * math.exp(-abs(u) if abs(u) < 20 else -20) + 4 * eps, 'u=%r gives %r not %r', u, v, e)
        if u == 0:
            need(abs(v - .5 * (lo + hi)) <= 2 * eps, 'middle %r', v)
        if u >= 710:
            need(v == hi, 'overflow end %r', v)
        if u <= -1000:
            need(v == lo, 'underflow end %r', v)
        if prev is not None:
            need(v >= prev[1] - 2 * eps and (v > prev[1] or u - prev[0] < 1e-6 or abs(u) > 12 or abs(prev[0]) > 12 or w < 1e-3 * abs(hi) or w < 1e-3 * abs(lo)), 'not increasing: %r %r', prev, (u, v))
        prev = (u, v)
        if abs(u) < 8 and eps < 1e-9 * w:
            b = p._unbounded_get_value()
            need(abs(b - u) <= 1e-9 + 20 * eps / w * math.exp(abs(u)), 'read back %r after setting %r', b, u)
    if c['st'] == 0:
        p.fix(lo)
    elif c['st'] == 1:
        p.linstep(lo, hi, 3)
    if c['st'] < 2:
        v, s = float(inf.a), p.status
        for f in (lambda: p._unbounded_set_value(.3), lambda: p._unbounded_get_value()):
            try:
                f()
                need(False, 'unbounded access of a non-varying parameter is not refused')
            except (ParamError, RuntimeError):
                pass
        need(float(inf.a) == v and p.status == s, 'refused access changed something')
