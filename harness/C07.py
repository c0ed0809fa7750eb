from common import *
from gaussmodels import *


def gen(g, i):
    model = g.choice(('S1', 'S1V', 'S1U', 'S2', 'S3', 'S4V', 'SN', 'SN'))
    sets = []
    integer = g.bool(.2)
    num = (lambda: g.int(-5, 5)) if integer else (lambda: g.real(-5, 5))
    for _ in range(g.int(1, 3)):
        n = g.int(1, 6)
        dim = LOCDIM.get(model) or g.int(1, 7)
        l = [[num() for _ in range(dim)] for _ in range(n)] if model in LOCDIM else [num() for _ in range(n)]
        sets.append([l, [num() for _ in range(n)], [g.int(1, 4) if integer else g.pos(.05, 20) for _ in range(n)]])
    form = g.choice(('three', 'three', 'list') if model in LOCDIM else ('three', 'three', 'array', 'list'))
    ops = [[g.choice(('assign', 'assign', 'score', 'logp', 'vary', 'other', 'beyond')), g.int(0, 2), g.reals(3, -3, 3), g.bool(.3)] for _ in range(g.int(1, 6))]
    return dict(model=model, sets=sets, form=form, kind=g.choice('CLB'), ops=ops)


def check(c):
    ps = predset(c['sets'], c['form'])
    inf = make(c['kind'], c['model'], ps)
    other = make(c['kind'], c['model'], ps)
    p = [float(inf.a), float(inf.b), float(inf.c)]

    def chi(k, par):
        l, v, s = c['sets'][k]
        return math.fsum(((y - predict(c['model'], par, x)) / e) ** 2 for x, y, e in zip(l, v, s))

    def total(par):
        t = math.fsum(chi(k, par) for k in range(len(c['sets'])))
        if c['kind'] == 'C':
            return t
        return -.5 * t + (-.5 * par[0] ** 2 - abs(par[1]) if c['kind'] == 'B' else 0.)
    ok = lambda a, b: close(a, b, 1e-9, 1e-9)
    names = 'abc'
    vary = []
    for op, k, vals, flag in c['ops']:
        n = names[k]
        if op == 'assign':
            if n in vary:
                vary.remove(n)
            setattr(inf, n, vals[0])
            p[k] = vals[0]
        elif op == 'vary':
            hnd(inf, n).vary(vals[0], .1, (-4., 4.))
            if n not in vary:
                vary.append(n)
            p[k] = vals[0]
        elif op == 'other':
            other.a, other.b, other.c = vals
            other.score()
        elif op == 'score' and vary:
            a = np.array(vals[:len(vary)])
            a0 = a.copy()
            q = list(p)
            if flag:
                inf.map_bounds()
            r = inf._score(a)
            inf.unmap_bounds()
            for x, m in zip(a, vary):
                q[names.index(m)] = float(x) if not flag else float(-4 + 8 / (1 + math.exp(-x)))
            need((a == a0).all(), 'argument modified')
            p = [float(getattr(inf, m)) for m in names]
            need(all(close(x, y, 1e-9, 1e-9) for x, y in zip(p, q)), 'parameters %r after _score, expected %r', p, q)
            e = total(p)
            need(ok(r, e if c['kind'] == 'C' else -e), '_score returned %r, statistic %r (%s)', float(r), e, c['kind'])
        elif op == 'beyond' and vary:
            a = np.array(vals[:len(vary)], float)
            a[k % len(vary)] = 4.5 if flag else -1e3
            try:
                r = inf._score(a) if vals[0] > 0 or c['kind'] != 'B' else inf._logp_func(a)
            except ParamRangeError:
                r = None
            need(r is None, 'score %r for an argument outside the range of its parameter', r)
            p = [float(getattr(inf, m)) for m in names]
        elif op == 'logp' and c['kind'] == 'B':
            a = np.array(vals[:len(vary)])
            r = inf._logp_func(a)
            for x, m in zip(a, vary):
                p[names.index(m)] = float(x)
            need(ok(r, total(p)), '_logp_func returned %r, statistic %r', float(r), total(p))
            need(ok(inf.logp(), total(p)), 'logp')
        for m, x in zip(names, p):
            need(float(getattr(inf, m)) == x, 'parameter %s is %r not %r', m, float(getattr(inf, m)), x)
        need(ok(inf.score(), total(p)), 'score %r, documented statistic %r', float(inf.score()), total(p))
        for j in range(len(c['sets'])):
            h = getattr(inf, 'd%d' % j)
            need(ok(h.chisqr(), chi(j, p)), 'chi-squared of set %d: %r, expected %r', j, float(h.chisqr()), chi(j, p))
            need(ok(h.log_like(), -.5 * chi(j, p)), 'log likelihood of set %d: %r, expected %r', j, float(h.log_like()), -.5 * chi(j, p))
