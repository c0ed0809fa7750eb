import math
import numpy as np
from common import *
from inference.integrate import cub2d

SNAP = {k: (v[1].copy(), v[2].copy()) for k, v in cub2d.rule_dict.items()}
NAMES = sorted(SNAP)


def gen(g, i):
    kind = g.choice(['square', 'rect', 'rect', 'plane', 'normal', 'normal'])
    xl, yl = g.real(-20, 20), g.real(-20, 20)
    return dict(kind=kind, which=g.int(0, 40), x=[xl, xl + g.pos(1e-3, 50) * g.choice([1, 1, -1])], y=[yl, yl + g.pos(1e-3, 50) * g.choice([1, 1, -1])],
                loc=g.reals(2, -5, 5), scale=[g.pos(1e-2, 20), g.pos(1e-2, 20)], c=g.reals(105, -2, 2), one=g.int(0, 104) if g.bool(.4) else None,
                spoil=g.bool(.2), seq=g.choice(['tuple', 'list', 'array']), vec=g.bool(.3), default=g.bool(.1))


def pairs(d):
    return [(m, n) for m in range(d + 1) for n in range(d + 1 - m)]


def mom(kind, m):
    if m % 2:
        return 0.
    if kind == 'square':
        return 2. / (m + 1)
    if kind == 'plane':
        return math.gamma((m + 1) / 2)
    return math.prod(range(1, m, 2))


def seq(case, v):
    return dict(tuple=tuple, list=list, array=np.array)[case['seq']](v)


def check(case):
    k = case['kind']
    if k == 'square':
        f, deg = [(cub2d.square1d4pt, 1), (cub2d.square3d4pt, 3), (cub2d.square7d12pt, 7)][case['which'] % 3]
        x0, hx, y0, hy, kind, run, fac = 0., 1., 0., 1., 'square', f, 1.
        box = (-1, 1, -1, 1)
    elif k == 'rect':
        f, deg = [(cub2d.rect3d4pt, 3), (cub2d.rect7d12pt, 7)][case['which'] % 2]
        (xl, xu), (yl, yu) = case['x'], case['y']
        x0, hx, y0, hy, kind = (xl + xu) / 2, (xu - xl) / 2, (yl + yu) / 2, (yu - yl) / 2, 'square'
        run, fac = (lambda g, r=f: r(g, seq(case, case['x']), seq(case, case['y']))), hx * hy
        box = (min(xl, xu), max(xl, xu), min(yl, yu), max(yl, yu))
    else:
        name = NAMES[case['which'] % len(NAMES)]
        deg = int(name.split('_')[-2])
        box = None
        if k == 'plane':
            x0, hx, y0, hy, kind, run, fac = 0., 1., 0., 1., 'plane', cub2d.rule_dict[name][0], 1.
        else:
            loc, sc = seq(case, case['loc']), seq(case, case['scale'])
            if case['default']:
                ob, deg = cub2d.NormWtCub2D(loc, sc), 7
            else:
                ob = cub2d.NormWtCub2D(loc, sc, name)
            other = cub2d.NormWtCub2D([1., 2.], [3., 4.], name)
            if case['spoil']:
                other(lambda x, y: 1.)
                other.absc[:] = 7.
                other.wts[:] = 7.
            x0, hx, y0, hy, kind, run, fac = case['loc'][0], case['scale'][0], case['loc'][1], case['scale'][1], 'normal', ob, 1.
    ps = pairs(deg)
    c = dict(zip(ps, case['c'])) if case['one'] is None else {ps[case['one'] % len(ps)]: 1.}
    nodes, mag = [], [0.]

    def f(x, y):
        nodes.append((float(x), float(y)))
        u, v = (x - x0) / hx, (y - y0) / hy
        mag[0] = max(mag[0], sum(abs(w * u ** m * v ** n) for (m, n), w in c.items()))
        r = sum(w * u ** m * v ** n for (m, n), w in c.items())
        return np.array([r, 2 * r]) if case['vec'] else r
    got = run(f)
    want = fac * sum(w * mom(kind, m) * mom(kind, n) for (m, n), w in c.items())
    tol = 1e-11 * abs(fac) * (sum(abs(w) * mom(kind, m + m % 2) * mom(kind, n + n % 2) for (m, n), w in c.items()) + mag[0])
    tol *= 1 + 10 * (abs(x0 / hx) + abs(y0 / hy))
    if case['vec']:
        need(abs(got[1] - 2 * want) <= 2 * tol, 'vector integrand: %r instead of %r' % (got[1], 2 * want))
        got = got[0]
    need(abs(got - want) <= tol, 'integral %r of a polynomial of degree %d, should be %r' % (got, deg, want))
    if box:
        e = 1e-12 * (1 + max(map(abs, box)))
        need(all(box[0] - e <= x <= box[1] + e and box[2] - e <= y <= box[3] + e for x, y in nodes), 'node outside the rectangle')
    for nm, (a, w) in SNAP.items():
        need(np.array_equal(cub2d.rule_dict[nm][1], a) and np.array_equal(cub2d.rule_dict[nm][2], w), 'the tabulated rule %s was altered' % nm)


def nontrivial(case):
    return case['one'] is None
