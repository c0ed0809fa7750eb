from common import *
from piemodels import *


def gen(g, i):
    m = g.int(1, 6)
    order = list(ABC[:6])
    g.shuffle(order)
    cap = {1: 30, 2: 12, 3: 7, 4: 5, 5: 3, 6: 3}[m]
    dims = [[order[j], g.int(2, cap), g.bool(.3), g.real(-3, 3), g.pos(.1, 4)] for j in range(m)]
    return dict(dims=dims, varying=order[m] if m < 6 and g.bool(.3) else None, early=g.int(0, 30) if g.bool(.4) else None,
                redo=g.int(0, m - 1) if g.bool(.4) else None, twice=g.bool(.5), kind=g.choice('LC'))


def state(inf, names):
    return [(hnd(inf, n).step_num, float(getattr(inf, n))) for n in names]


def declare(inf, d):
    n, k, log, lo, w = d
    if log:
        hnd(inf, n).logstep(w, w * 4, k)
    else:
        hnd(inf, n).linstep(lo, lo + w, k)


def walk(inf, dims, c):
    names = [d[0] for d in dims]
    N = tuple(d[1] for d in dims)
    need(tuple(inf.step_shape()) == N, 'step_shape %r, declared %r', inf.step_shape(), N)
    total = 1
    for k in N:
        total *= k
    seen = set()
    prev = None
    expect = [0] * len(N)
    dr = [1] * len(N)
    for t in range(total):
        s = state(inf, names)
        idx = tuple(x[0] for x in s)
        need(tuple(inf.step_nums()) == idx, 'step_nums %r, parameters are at %r', inf.step_nums(), idx)
        need(tuple(inf.step_shape()) == N, 'step_shape changes')
        need(idx == tuple(expect), 'grid point number %d is %r, zig-zag order gives %r (shape %r)', t, idx, tuple(expect), N)
        need(idx not in seen, 'grid point %r visited twice', idx)
        for (k, v), d in zip(s, dims):
            lo, hi = (d[4], d[4] * 4) if d[2] else (d[3], d[3] + d[4])
            e = lo * (hi / lo) ** (k / (d[1] - 1)) if d[2] else lo + k * (hi - lo) / (d[1] - 1)
            need(close(v, e, 1e-9, 1e-9), 'value %r at index %d of %s, expected %r', v, k, d[0], e)
        seen.add(idx)
        if prev is not None:
            diff = [j for j in range(len(N)) if prev[j] != idx[j]]
            need(len(diff) == 1 and abs(prev[diff[0]] - idx[diff[0]]) == 1, 'step from %r to %r', prev, idx)
        prev = idx
        for j in range(len(N)):
            if 0 <= expect[j] + dr[j] < N[j]:
                expect[j] += dr[j]
                break
            dr[j] = -dr[j]
        try:
            inf.next_step()
            need(t < total - 1, 'no stop signal after the last of %d points', total)
        except StopStepping:
            need(t == total - 1, 'stop signal after %d of %d points (shape %r)', t + 1, total, N)
    need(len(seen) == total, 'points missed')
    atstart(inf, dims, 'after the stop signal')


def atstart(inf, dims, what):
    for d in dims:
        h = hnd(inf, d[0])
        lo = d[4] if d[2] else d[3]
        need(h.step_num == 0 and float(getattr(inf, d[0])) == lo, '%s: %s at step %r value %r', what, d[0], h.step_num, float(getattr(inf, d[0])))
        need(inf.stepping_info[h] == nextd, '%s: %s does not head forward', what, d[0])


def check(c):
    inf = inference(6, c['kind'])
    dims = c['dims']
    for d in dims:
        declare(inf, d)
    if c['varying']:
        hnd(inf, c['varying']).vary(1., .1, (0., 2.))
    atstart(inf, dims, 'after declaring')
    if c['early'] is not None:
        for _ in range(c['early']):
            try:
                inf.next_step()
            except StopStepping:
                atstart(inf, dims, 'after the stop signal')
        if c['redo'] is not None:
            declare(inf, dims[c['redo']])
            atstart(inf, dims, 'after re-declaring')
        else:
            inf.reset_steps()
            atstart(inf, dims, 'after reset')
    walk(inf, dims, c)
    if c['twice']:
        if c['redo'] is not None and len(dims) > 1:
            d = dims[c['redo']]
            hnd(inf, d[0]).fix(1.)
            dims = [x for x in dims if x is not d] + [d]
            declare(inf, d)
        walk(inf, dims, c)
