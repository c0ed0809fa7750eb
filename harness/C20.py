import math
import numpy as np
from common import *
from inference.deriv.obsinfo import obsinfo, dllsteps

EPS = 2.3e-16


class Boom(Exception):
    pass


def gen(g, i):
    n = g.choice([1, 2, 2, 3, 4, 6])
    sd = [g.pos(1e-2, 1e2) for _ in range(n)]
    H = [[0.] * n for _ in range(n)]
    for p in range(n):
        H[p][p] = 1 / sd[p] ** 2
        for q in range(p):
            H[p][q] = H[q][p] = g.choice([0., g.real(-.95, .95), g.real(-3, 3) if g.bool(.2) else .5]) / (sd[p] * sd[q])
    return dict(n=n, H=H, mode=g.reals(n, -5, 5), steps=[s * g.pos(.1, 5) * g.choice([1, 1, -1]) for s in sd], top=g.choice([0., 0., g.real(-20, 20)]),
                niter=g.choice([0, 1, 2, 2, 3]), give=g.bool(), kind=g.choice(['array', 'array', 'list', 'default']), quad=g.bool(.7), four=g.real(-.1, .3) if g.bool(.2) else None, c3=g.real(-.2, .2),
                boom=g.int(0, 20) if g.bool(.15) else None)


def nontrivial(c):
    return c['n'] > 1


def check(case):
    n, H = case['n'], np.array(case['H'])
    mode, steps = np.array(case['mode']), np.array(case['steps'])
    if case['kind'] == 'list':
        mode, steps = mode.tolist(), steps.tolist()
    m0, s0 = np.array(mode, float), np.array(steps, float)
    sd = 1 / np.sqrt(np.diag(H))
    calls = []

    def f(x):
        calls.append(np.array(x, float))
        if case['boom'] is not None and len(calls) > case['boom']:
            raise Boom()
        d = calls[-1] - m0
        v = case['top'] - d.dot(H).dot(d) / 2
        if case['four'] is not None:
            return v - case['four'] * ((d / sd) ** 4).sum()
        if not case['quad']:
            t = d / sd
            v -= (t ** 4).sum() * .05 + case['c3'] * (t ** 2).sum() ** 2 * .1 + case['c3'] * math.sin(t[0]) * (t ** 2).sum() * .1
        return v
    kw = {}
    if case['give']:
        kw['maxll'] = case['top']
    if case['kind'] != 'default':
        kw['niter'] = case['niter']
    niter = kw.get('niter', 2)
    try:
        info, err = obsinfo(f, mode, steps, **kw)
    except Boom:
        info = None
    need(np.array_equal(np.array(mode, float), m0), 'the mode given by the caller was modified')
    need(np.array_equal(np.array(steps, float), s0), 'the steps given by the caller were modified')
    for x in calls:
        need(sum(a != b for a, b in zip(x, m0)) <= 2 or any(a != a for a in x), 'density evaluated with more than two parameters away from the mode: %s' % x)
    if info is None:
        return
    need(info.shape == (n, n) and err.shape == (n, n), 'wrong shapes')
    ok = np.isfinite(info)
    need(np.array_equal(np.where(ok, info, 0), np.where(ok, info, 0).T), 'the information matrix is not symmetric: %s' % info.tolist())
    need(np.array_equal(np.where(np.isfinite(err), err, 0), np.where(np.isfinite(err), err, 0).T), 'the error matrix is not symmetric')
    if niter == 0:
        need((err == 0).all(), 'errors reported without extrapolation')
    if case['four'] is not None:
        # one extrapolation step removes the effect of a fourth-order term
        if niter == 1:
            for i in range(n):
                t = abs(s0[i]) / sd[i]
                tol = 1e-9 * H[i, i] * (1 + t * t) + 1e3 * EPS * (abs(case['top']) + t ** 4 + abs(m0[i]) * (t + t ** 3) / sd[i]) / s0[i] ** 2
                need(abs(info[i, i] - H[i, i]) <= tol, 'information[%d,%d] is %r, second derivative %r (fourth-order density, one extrapolation)' % (i, i, info[i, i], H[i, i]))
        return
    if not case['quad']:
        return
    # rounding of the second differences, amplified by the extrapolation
    amp = 4 * 9. ** niter
    dg = np.array([amp * 8 * EPS * (abs(case['top']) + H[i, i] * s0[i] ** 2 + abs(m0[i]) * H[i, i] * abs(s0[i])) / (s0[i] * .707 ** niter) ** 2 for i in range(n)])
    for i in range(n):
        need(abs(info[i, i] - H[i, i]) <= dg[i] + 1e-10 * H[i, i], 'information[%d,%d] is %r, second derivative %r (niter %d)' % (i, i, info[i, i], H[i, i], niter))
    for i in range(n):
        for j in range(i):
            u = 1 / (sd[i] * sd[j])
            tol = u * (amp * 8 * EPS * (abs(case['top']) + 4 + abs(m0[i]) / sd[i] + abs(m0[j]) / sd[j]) / .5 ** niter + 4 * (dg[i] / H[i, i] + dg[j] / H[j, j]) * (1 + abs(H[i, j]) / u) + 1e-9)
            need(abs(info[i, j] - H[i, j]) <= tol, 'information[%d,%d] is %r, second derivative %r (niter %d)' % (i, j, info[i, j], H[i, j], niter))
            need(err[i, j] <= 10 * tol + 1e-6 * u, 'error estimate %r of an exact matrix' % err[i, j])
