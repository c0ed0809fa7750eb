import itertools
from common import *
from piemodels import *
from inference.utils.nrmin import IterErr

CASE_S = 60


def gen(g, i):
    mode = g.choice(('plain', 'plain', 'fake', 'fake', 'real') if i % 6 == 0 else ('plain', 'fake', 'fake'))
    m = g.int(1, 4) if mode != 'real' else g.int(1, 2)
    order = list(ABC[:6])
    g.shuffle(order)
    cap = {1: 9, 2: 6, 3: 4, 4: 3}[m] if mode != 'real' else 3
    dims = [[order[j], g.int(2, cap), g.bool(.3), g.real(-2, 2), g.pos(.1, 2)] for j in range(m)]
    nv = 0 if mode == 'plain' else g.int(1, 2)
    off = g.choice((0., 0., 5., -5., -20.))
    return dict(dims=dims, vary=order[m:m + nv], mode=mode, vargrid=g.bool() if nv else g.bool(.3), early=g.int(0, 6) if g.bool(.4) else 0,
                kind=g.choice('LC'), nlog=g.choice((None, None, 1, 2, 3)), seed=g.int(0, 10**6), off=off, ties=g.bool(.2))


def stepval(d, k):
    lo, hi = (d[4], d[4] * 4) if d[2] else (d[3], d[3] + d[4])
    if k == 0:
        return lo
    if k == d[1] - 1:
        return hi
    return lo * (hi / lo) ** (k / (d[1] - 1)) if d[2] else lo + k * (hi - lo) / (d[1] - 1)


def check(c):
    inf = inference(6, c['kind'])
    dims = c['dims']
    for n in c['vary']:
        hnd(inf, n).vary(.5, .1, (-3e3, 3e3))
    for n, k, log, lo, w in dims:
        if log:
            hnd(inf, n).logstep(w, w * 4, k)
        else:
            hnd(inf, n).linstep(lo, lo + w, k)
    for _ in range(c['early']):
        try:
            inf.next_step()
        except StopStepping:
            pass
    N = tuple(d[1] for d in dims)
    rnd = random.Random(c['seed'])
    table = {}
    calls = {}
    if c['mode'] == 'fake':
        for idx in itertools.product(*[range(k) for k in N]):
            v = rnd.uniform(-3, 3) + c['off']
            if c['ties']:
                v = float(round(v))
            table[idx] = ([rnd.uniform(-3, 3) for _ in c['vary']], v)

        def optimize(method=None, tol=None):
            idx = tuple(hnd(inf, d[0]).step_num for d in dims)
            calls[idx] = calls.get(idx, 0) + 1
            return np.array(table[idx][0]), table[idx][1], 1
        inf.optimize = optimize
    elif c['mode'] == 'real':
        orig = inf.optimize

        def optimize(method=None, tol=None):
            idx = tuple(hnd(inf, d[0]).step_num for d in dims)
            calls[idx] = calls.get(idx, 0) + 1
            r = orig(method=method, tol=tol)
            table[idx] = ([float(x) for x in r[0]], float(r[1]))
            return r
        inf.optimize = optimize
    try:
        r = inf.fit(vargrid=c['vargrid'], nlog=c['nlog'])
    except (ParamRangeError, IterErr):
        if c['mode'] == 'real':     # the optimiser left the range: no result is reported
            return
        raise
    two = bool(c['vary']) and c['vargrid']
    need(isinstance(r, tuple) == two, 'result form %r', type(r))
    res, vres = r if two else (r, None)
    need(res.values.shape == N, 'array shape %r, declared %r', res.values.shape, N)
    need([a[0] for a in res.axes] == [d[0] for d in dims] and res.ndim == len(dims), 'axes %r', res.axes)
    for a, d in zip(res.axes, dims):
        lo, hi = (d[4], d[4] * 4) if d[2] else (d[3], d[3] + d[4])
        need(a[1] == lo and a[2] == hi and a[3] == d[1] and a[4] == (log_steps if d[2] else lin_steps), 'axis %r declared %r', a, d)
    need(not np.isnan(res.values).any(), 'cells left unset: %r', np.argwhere(np.isnan(res.values))[:3].tolist())
    ref = inference(6, c['kind'])
    for idx in itertools.product(*[range(k) for k in N]):
        got = res.values[idx]
        if c['mode'] == 'plain':
            for d, k in zip(dims, idx):
                setattr(ref, d[0], stepval(d, k))
            e = float(ref.score())
            need(close(got, e, 1e-7, 1e-7), 'cell %r holds %r, the score there is %r', idx, got, e)
        else:
            need(got == table[idx][1], 'cell %r holds %r, the optimised score there is %r', idx, got, table[idx][1])
            if two:
                p = np.atleast_1d(vres.values[idx])
                need(p.shape == (len(c['vary']),) and all(float(a) == b for a, b in zip(p, table[idx][0])),
                     'companion cell %r holds %r, the optimum there is %r', idx, p.tolist(), table[idx][0])
            if c['mode'] == 'real':
                for d, k in zip(dims, idx):
                    setattr(ref, d[0], stepval(d, k))
                for n, v in zip(c['vary'], table[idx][0]):
                    setattr(ref, n, v)
                need(close(got, float(ref.score()), 1e-6, 1e-6), 'cell %r holds %r, score at the optimum is %r', idx, got, float(ref.score()))
    if c['vary']:
        best = res.values.max() if inf.extremize == 'max' else res.values.min()
        need(float(res.opt_val) == best, 'best value reported %r, best cell %r', float(res.opt_val), best)
        need(res.values[tuple(res.opt_ind)] == best, 'best index %r holds %r, best %r', res.opt_ind, res.values[tuple(res.opt_ind)], best)
        if two:
            need(tuple(vres.opt_ind) == tuple(res.opt_ind), 'companion best index')
            need(vres.values.shape == N + ((len(c['vary']),) if len(c['vary']) > 1 else ()), 'companion shape %r', vres.values.shape)
            need(calls and all(v == 1 for v in calls.values()) and len(calls) == res.values.size, 'optimisations per cell')
    for d in dims:
        need(hnd(inf, d[0]).step_num == 0, 'not reset afterwards')
    need([p.name for p in inf.stepping_params] == [d[0] for d in dims] and [p.name for p in inf.varying_params] == c['vary'], 'roles changed')
