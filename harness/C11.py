import math
from common import *
from gaussmodels import *
from piemodels import inference, ABC
from inference.utils.nrmin import IterErr
from C10 import shape, Budget

CASE_S = 60
NONE = (IterErr, ParamRangeError, Budget)


def gen(g, i):
    kind = g.choice('CL')
    if g.bool(.3):
        n = g.int(3, 6)
        l = [g.real(-2, 2) for _ in range(n)]
        c = dict(model='S1', kind=g.choice('CLB'), sets=[[l, [g.real(-3, 3) for _ in l], [g.pos(.1, 3) for _ in l]]])
        names = 'abc'
    else:
        names = ABC[:4]
        c = dict(model=None, kind=kind, shape=[g.choice((0, 0, 1, 2, 4, 5)) for _ in names], c=[g.pos(.05, 20) for _ in names],
                 x0=g.reals(4, -3, 3), s=[g.pos(.1, 10) for _ in names], off=g.real(-3, 3), cross=g.real(0, 1) if g.bool() else 0.)
    order = list(names)
    g.shuffle(order)
    m = g.int(1, len(order))
    c['vary'] = []
    for nm in order[:m]:
        w = g.pos(.5, 50)
        mid = g.real(-3, 3)
        t = g.uniform(.02, .98)
        c['vary'].append([nm, mid - w + 2 * w * t, g.pos(1e-3, 1.) * w * g.choice((1, 1, -1)), [mid - w, mid + w]])
    c['fixed'] = [[nm, g.real(-2, 2)] for nm in order[m:]]
    c['unb'] = g.bool(.5)
    c['api'] = g.choice(('fit', 'optimize'))
    c['twice'] = g.bool(.3)
    return c


def check(c):
    if c['model']:
        inf = make(c['kind'], c['model'], predset(c['sets'], 'three'))
        ncall = [0]
        real = inf.score

        def score():
            ncall[0] += 1
            if ncall[0] > 10000:
                raise Budget()
            return real()
        inf.score = score
    else:
        inf = inference(4, c['kind'])
        ncall = [0]

        def score():
            ncall[0] += 1
            if ncall[0] > 30000:
                raise Budget()
            p = [float(getattr(inf, n)) for n in ABC[:4]]
            if not all(abs(x) < 1e60 for x in p):
                raise Budget()
            t = [(x - x0) / s for x, x0, s in zip(p, c['x0'], c['s'])]
            r = sum(shape(k, u, q) for k, u, q in zip(c['shape'], t, c['c'])) + c['off'] + c['cross'] * (t[0] - t[1]) ** 2
            return -r if c['kind'] == 'L' else r
        inf.score = score
    names = 'abc' if c['model'] else ABC[:4]
    for n, v in c['fixed']:
        setattr(inf, n, v)
    for n, v, d, r in c['vary']:
        hnd(inf, n).vary(v, d, tuple(r))
    if c['unb']:
        inf.map_bounds()
    for rnd in range(2 if c['twice'] else 1):
        s0 = float(inf.score())
        try:
            r = inf.fit() if c['api'] == 'fit' else inf.optimize()
        except NONE:
            for n, v in c['fixed']:
                need(float(getattr(inf, n)) == v, 'fixed parameter %s changed', n)
            return
        ps, st = [float(x) for x in r[0]], float(r[1])
        now = [float(getattr(inf, v[0])) for v in c['vary']]
        need(len(ps) == len(c['vary']), '%d values for %d varying parameters', len(ps), len(c['vary']))
        need(ps == now, 'returned values %r, the model is left at %r', ps, now)
        for n, v in c['fixed']:
            need(float(getattr(inf, n)) == v, 'fixed parameter %s changed', n)
        s1 = float(inf.score())
        need(close(s1, st, 1e-12, 1e-12), 'returned statistic %r, the model scores %r', st, s1)
        m = 1e-9 * max(1., abs(s0)) * (100 if c['unb'] else 1)
        worse = st > s0 + m if c['kind'] == 'C' else st < s0 - m
        need(not worse, 'statistic %r is worse than %r at the start', st, s0)
        for n, v, d, rg in c['vary']:
            x = float(getattr(inf, n))
            need(rg[0] <= x <= rg[1], 'parameter %s left at %r outside its range', n, x)
            need(hnd(inf, n).status == varying, 'parameter %s is no longer varying', n)
