import math
import numpy as np
from common import *
from inference.deriv.obsinfo import dllsteps

CASE_S = 10


class Budget(Exception):
    pass


class Boom(Exception):
    pass


def gen(g, i):
    n = g.choice([1, 1, 2, 3, 5])
    return dict(n=n, mode=g.reals(n, -5, 5), guess=[g.pos(1e-2, 30) * g.choice([1, 1, 1, -1]) for _ in range(n)],
                scale=[g.pos(1e-2, 30) for _ in range(n)], shape=[g.choice(['quad', 'quad', 'quartic', 'abs', 'cosh', 'plateau', 'wall', 'skew', 'notmax']) for _ in range(n)],
                corr=g.choice([0., 0., g.real(-.5, .5)]), top=g.choice([0., 0., g.real(-50, 50)]), dll=g.choice([1., .5, 2., g.pos(.05, 10)]),
                tol=g.choice([.01, 1e-3, 1e-5, .1]), maxiter=g.choice([20, 20, 50, 5, 1]), give=g.bool(), kind=g.choice(['array', 'array', 'list', 'int', 'same']),
                boom=g.int(0, 12) if g.bool(.15) else None)


def one(shape, t):
    if shape == 'quad':
        return -t * t / 2
    if shape == 'quartic':
        return -t ** 4
    if shape == 'abs':
        return -abs(t)
    if shape == 'cosh':
        return -math.log(math.cosh(t)) if abs(t) < 300 else -abs(t) + math.log(2)
    if shape == 'plateau':
        return -t * t / 2 if abs(t) < .5 else -.125 if abs(t) < 3 else float('nan') if not abs(t) < 1e300 else -.125 - (abs(t) - 3)
    if shape == 'wall':
        return -t * t / 2 if abs(t) < 5 else float('nan')
    if shape == 'skew':
        return -(math.exp(t) - 1 - t) if t < 300 else float('-inf')
    return .3 * t - t * t / 2        # maximum elsewhere


def check(case):
    n = case['n']
    mode, guess = np.array(case['mode']), np.array(case['guess'])
    if case['kind'] == 'int':
        mode = np.round(mode).astype(int)
    if case['kind'] == 'list':
        mode, guess = mode.tolist(), guess.tolist()
    if case['kind'] == 'same':
        guess = mode
        if any(v == 0 for v in case['mode']):
            return
    m0, g0 = np.array(mode, float), np.array(guess, float)
    calls = []

    def f(x):
        calls.append(np.array(x, float))
        if case['boom'] is not None and len(calls) > case['boom']:
            raise Boom()
        if len(calls) > 3000:
            raise Budget()
        t = (calls[-1] - m0) / case['scale']
        v = case['top'] + sum(one(s, u) for s, u in zip(case['shape'], t))
        if n > 1:
            v -= case['corr'] * t[0] * t[1]
        return v
    kw = {}
    if case['give']:
        kw['maxll'] = case['top']
    for k, v in (('dll', 1.), ('maxiter', 20), ('tol', .01)):
        if case[k] != v:        # else the default, documented in the signature
            kw[k] = case[k]
    d = err = None
    try:
        d = dllsteps(f, mode, guess, **kw)
    except (ValueError, RuntimeError, Boom, Budget) as e:
        err = e
    need(np.array_equal(np.array(mode, float), m0), 'the mode given by the caller was modified')
    need(np.array_equal(np.array(guess, float), g0), 'the starting steps given by the caller were modified')
    need(type(mode) is type(mode) and d is not mode and d is not guess, 'a caller array was returned')
    for x in calls:
        need(sum(a != b for a, b in zip(x, m0)) <= 1 or any(a != a for a in x), 'density evaluated with several parameters away from the mode: %s' % x)
    if d is None:
        if isinstance(err, (Boom, Budget)):
            return
        sure = case['boom'] is None and set(case['shape']) == {'quad'} and case['maxiter'] >= 5 and case['tol'] >= 1e-5 and abs(case['top']) < 60 and \
            all(1e-2 < abs(a / b) < 1e2 for a, b in zip(g0, case['scale']))
        need(not sure, 'fails on a parabola: %r' % err)
        return
    need(np.shape(d) == (n,), 'wrong shape %s' % (np.shape(d),))
    case['boom'] = None
    calls[:] = []
    for i in range(n):
        x = m0.copy()
        x[i] += d[i]
        drop = case['top'] - f(x)
        slack = 1e-9 * (1 + abs(case['top'])) + 1e-6 * abs(case['dll']) + abs(one_slope(case, i, x[i] - m0[i])) * 1e-15 * (abs(m0[i]) + abs(d[i]))
        need(abs(drop - case['dll']) <= case['tol'] + slack, 'step %r of parameter %d (%s) changes the log density by %r, wanted %r within %r' % (d[i], i, case['shape'][i], drop, case['dll'], case['tol']))


def one_slope(case, i, d):
    s, d = case['scale'][i], float(d)
    try:
        return abs(one(case['shape'][i], (d * (1 + 1e-6)) / s) - one(case['shape'][i], d / s)) / (abs(d) * 1e-6)
    except ZeroDivisionError:
        return 0.
