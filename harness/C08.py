from common import *
from gaussmodels import *
import copy


class Draws:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.log = []

    def rvs(self, n=None, size=None, **k):
        n = n if size is None else size
        v = self.r.gauss(0, 1) if n is None else np.array([self.r.gauss(0, 1) for _ in range(int(n))])
        self.log.append(v)
        return v


def gen(g, i):
    model = g.choice(('S1', 'S1V', 'S1U', 'S2', 'S1'))
    integer = g.bool(.3)
    num = (lambda: g.int(-5, 5)) if integer else (lambda: g.real(-5, 5))
    loc = (lambda: [g.real(-5, 5), g.real(-5, 5)]) if model == 'S2' else (lambda: g.choice((0., g.real(-5, 5))))
    sets = []
    for _ in range(g.int(1, 2)):
        n = g.int(1, 5)
        l = [[num(), num()] for _ in range(n)] if model == 'S2' else [num() for _ in range(n)]
        sets.append([l, [num() for _ in range(n)], [g.int(1, 4) if integer else g.pos(.05, 20) for _ in range(n)]])
    ops = []
    for _ in range(g.int(1, 6)):
        m = g.int(1, 5)
        ops.append([g.choice(('sim', 'sim', 'sim1', 'sim1', 'add', 'add', 'param', 'caller', 'bad')), g.int(0, 1), g.int(0, 1), g.int(0, 9), g.bool(.4), g.bool(.4),
                    [loc() for _ in range(m)], [g.pos(.05, 20) for _ in range(m)], g.reals(3, -3, 3)])
    return dict(model=model, sets=sets, form=g.choice(('three', 'three', 'list') if model == 'S2' else ('three', 'array', 'list')), kind=g.choice('CLB'),
                ops=ops, late=g.bool(), seed=g.int(0, 10**6))


def check(c):
    ps = predset(c['sets'], c['form'])
    infs = [make(c['kind'], c['model'], ps) for _ in range(2)]
    nset = len(c['sets'])
    if not c['late']:
        for f in infs:
            f.score()
    # the state each instance should see: list of (l, v, s)
    view = [[[list(map(copy.copy, a)) for a in s] for s in c['sets']] for _ in infs]
    pars = [[float(f.a), float(f.b), float(f.c)] for f in infs]
    g0 = [p for n, p in sorted(vars(ps).items()) if isinstance(p, SampledGaussian)]
    arrs = [(p._locns, p._vals, p._sigmas) for p in g0]
    vals0 = [[a.copy() for a in t] for t in arrs]
    saved = gaussmod.stdnorm
    gaussmod.stdnorm = dr = Draws(c['seed'])
    given = []
    try:
        for op, who, k, i, ul, us, ls, ss, pv in c['ops']:
            k %= nset
            inf, v, p = infs[who], view[who][k], pars[who]
            h = getattr(inf, 'd%d' % k)
            n = len(v[1])
            del dr.log[:]
            if op == 'param':
                inf.a, inf.b, inf.c = pv
                p[:] = pv
            elif op == 'sim':
                kw = {}
                if ul and us:
                    kw = dict(locns=np.array(ls), sigmas=np.array(ss))
                elif ul:
                    kw = dict(locns=np.array((ls * 60)[:n]))
                elif us:
                    kw = dict(sigmas=np.array((ss * 60)[:n]))
                for a in kw.values():
                    given.append((a, a.copy()))
                h.sim(**kw)
                if 'locns' in kw:
                    v[0] = kw['locns'].tolist()
                if 'sigmas' in kw:
                    v[2] = kw['sigmas'].tolist()
                if dr.log:
                    z = np.ravel(dr.log[0])
                    need(len(dr.log) == 1 and len(z) == len(v[0]), 'deviates drawn: %r', dr.log)
                    v[1] = [predict(c['model'], p, l) + s * x for l, s, x in zip(v[0], v[2], z)]
                else:
                    v[1] = np.array(h.vals).tolist()
            elif op == 'sim1':
                i %= n
                kw = {}
                if ul:
                    kw['locn'] = ls[0]
                    v[0][i] = ls[0]
                if us:
                    kw['sigma'] = ss[0]
                    v[2][i] = ss[0]
                h.sim1(i, **kw)
                if dr.log:
                    v[1][i] = predict(c['model'], p, v[0][i]) + v[2][i] * float(np.ravel(dr.log[0])[0])
                else:
                    v[1][i] = float(h.vals[i])
            elif op == 'add':
                if ul:
                    kw = dict(locn=ls[0] if not us else np.array(ls[0]), sigma=ss[0])
                    nl, ns = ls[:1], ss[:1]
                else:
                    kw = dict(locns=np.array(ls) if us else ls, sigmas=np.array(ss) if us else ss)
                    nl, ns = ls, ss
                for a in kw.values():
                    if isinstance(a, np.ndarray):
                        given.append((a, a.copy()))
                h.add_sim(**kw)
                z = np.ravel(np.concatenate([np.ravel(x) for x in dr.log])) if dr.log else []
                if len(z):
                    need(len(z) == len(nl), 'deviates drawn for %d additional data: %r', len(nl), dr.log)
                    new = [predict(c['model'], p, l) + s * x for l, s, x in zip(nl, ns, z)]
                else:
                    new = np.array(h.vals).tolist()[n:]
                v[0], v[1], v[2] = list(v[0]) + [x for x in nl], list(v[1]) + new, list(v[2]) + list(ns)
                need(h.ndata == len(v[1]), 'number of data after adding %d to %d: %r', len(nl), n, h.ndata)
            elif op == 'bad':
                if us:
                    try:
                        h.add_sim(locns=np.array(ls), sigmas=np.array(ss + [1.]))
                        need(False, 'additional data with more sigmas than locations are not refused')
                    except ValueError:
                        pass
                try:
                    h.sim(locns=np.array((ls * 60)[:n + 1]))
                    need(False, 'a wrong number of locations is not refused')
                except ValueError:
                    pass
            elif op == 'caller':
                # the caller changes its own arrays after handing them over
                for a, b in given:
                    a += 1
                    b += 1
            for a, b in given:
                need((a == b).all(), "a caller's array was changed by %s", op)
            for t, t0 in zip(arrs, vals0):
                for a, b in zip(t, t0):
                    need(a.dtype == b.dtype and a.shape == b.shape and (a == b).all(), 'original data changed by %s: %r, were %r', op, a.tolist(), b.tolist())
            for pp, t in zip(g0, arrs):
                need(pp._locns is t[0] and pp._vals is t[1] and pp._sigmas is t[2], 'original arrays replaced by %s', op)
            for w, f in enumerate(infs):
                for q in range(nset):
                    hh = getattr(f, 'd%d' % q)
                    for nm, a, b in zip(('locations', 'values', 'sigmas'), (hh.locns, hh.vals, hh.sigmas), view[w][q]):
                        a, b = np.array(a, float), np.array(b, float)
                        need(a.shape == b.shape and np.allclose(a, b, 1e-9, 1e-9), 'instance %d, %s of set %d after %s: %r, expected %r', w, nm, q, op, a.tolist(), b.tolist())
                    l, vv, s = view[w][q]
                    e = math.fsum(((y - predict(c['model'], pars[w], x)) / u) ** 2 for x, y, u in zip(l, vv, s))
                    need(close(hh.chisqr(), e, 1e-8, 1e-8), 'chi-squared after %s: %r, expected %r', op, float(hh.chisqr()), e)
        fresh = make(c['kind'], c['model'], ps)
        for q in range(nset):
            hh = getattr(fresh, 'd%d' % q)
            for a, b in zip((hh.locns, hh.vals, hh.sigmas), vals0[q]):
                need((np.array(a) == b).all(), 'a new instance does not see the original data')
    finally:
        gaussmod.stdnorm = saved
