import math
import numpy as np
from common import *
import cbm
from inference.count.onoff import OnOff, sigctp, psigc


def gen(g, i):
    on = g.choice([0, 0, 1, 2, 5, 31, 32, 33, 34, g.int(0, 60), g.int(0, 400)])
    off = g.choice([0, 0, 1, 3, g.int(0, 60), g.int(0, 400)])
    d = [on, g.choice([1., g.pos(1e-2, 1e2)]), off, g.choice([1., g.pos(1e-2, 1e2)])]
    sc = max(1., (on + 1.)) / d[1]
    rate = lambda: g.choice([0., sc, g.real(0, 2) * sc, float(g.int(0, 5)), 3 * sc])
    ops = []
    for _ in range(g.int(1, 6)):
        k = g.choice(['pnsig', 'one', 'sigmp', 'siglml', 'direct'])
        if k == 'one':
            ops.append([k, g.choice([0, on, g.int(-2, on + 3)])])
        elif k in ('sigmp', 'siglml'):
            f = g.choice(['scalar', 'array', 'array', 'intarray'])
            n = g.choice([2, 2, 3, 5, 0])
            xs = [rate() for _ in range(n)] if f != 'scalar' else [rate()]
            if f == 'intarray':
                xs = [int(x) for x in xs]
            ops.append([k, f, xs])
        else:
            ops.append([k])
    return dict(d=d, cut=g.choice([None, 0., 1e-5, 1e-10]), ops=ops, junk=g.choice([0., -5., 7.]))


def nontrivial(c):
    return c['d'][0] > 0


def close(a, b, what, rt=1e-8, at=1e-290):
    need(abs(a - b) <= rt * abs(b) + at, '%s is %r, should be %r' % (what, float(a), b))


def check(case):
    n_on, t_on, n_off, t_off = d = case['d']
    kw = {} if case['cut'] is None else dict(cutoff=case['cut'])
    o = OnOff(*d, **kw)
    P = cbm.count_probs(n_on, t_on, n_off, t_off)
    mix = lambda s: math.fsum(p * t_on * cbm.pois(j, s * t_on) for j, p in enumerate(P))

    def probs(a, what):
        a = np.asarray(a)
        need(a.shape == (n_on + 1,), '%s: shape %s for %d counts' % (what, a.shape, n_on))
        need((a >= 0).all(), '%s: negative probability' % what)
        need(abs(math.fsum(a.tolist()) - 1) < 1e-10, '%s: probabilities add up to %r' % (what, math.fsum(a.tolist())))
        for j in range(n_on + 1):
            close(a[j], P[j], '%s: probability of %d counts' % (what, j), 1e-8, 1e-250)
    for op in case['ops']:
        k = op[0]
        if k == 'pnsig':
            a = o.pnsig()
            probs(a, 'pnsig')
            a[:] = case['junk']
        elif k == 'direct':
            a = sigctp(*d)
            probs(a, 'sigctp')
        elif k == 'one':
            n = op[1]
            if 0 <= n <= n_on:
                v = o.pnsig(n)
                need(np.ndim(v) == 0, 'pnsig(%d) is not a number' % n)
                close(v, P[n], 'pnsig(%d)' % n, 1e-8, 1e-250)
                need(v == o.pnsig()[n], 'pnsig(n) and pnsig()[n] differ')
            else:
                try:
                    o.pnsig(n)
                except ValueError:
                    continue
                raise Fail('pnsig(%d) accepted for %d counts' % (n, n_on))
        else:
            f = getattr(o, k)
            xs = op[2]
            if op[1] == 'scalar':
                try:
                    v = f(xs[0])
                except ValueError:
                    if k == 'siglml':
                        continue
                    raise
                need(np.ndim(v) == 0, '%s of a number is not a number' % k)
                if k == 'sigmp':
                    close(v, mix(xs[0]), 'sigmp(%r)' % xs[0])
            else:
                arr = np.array(xs, dtype=int if op[1] == 'intarray' else float)
                b = arr.copy()
                want, bad = [], False
                for x in xs:
                    try:
                        want.append(f(float(x)))
                    except ValueError:
                        if k != 'siglml':
                            raise
                        bad = True
                try:
                    v = f(arr)
                except ValueError:
                    need(bad, '%s raised for an array, not for its elements' % k)
                    continue
                need(not bad, '%s raised for an element, not for the array' % k)
                need(np.array_equal(arr, b), '%s modified its argument' % k)
                need(v.shape == arr.shape, '%s: shape %s' % (k, v.shape))
                for x, y, z in zip(xs, v, want):
                    need(y == z, '%s of an array gives %r at %r, scalar call %r' % (k, y, x, z))
                    if k == 'sigmp':
                        close(y, mix(x), 'sigmp at %r' % x)
                if len(v):
                    v[:] = case['junk']
