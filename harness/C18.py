import math
import numpy as np
from common import *
import cbm
from inference.count import onoff
from inference.count.onoff import slmlike, slmliked, vslmlike, slml_offset, vslml_offset, psigc


def counts(g):
    on = g.choice([0, 0, 1, 2, 5, 31, 32, 33, g.int(0, 60), g.int(0, 400)])
    off = g.choice([0, 0, 1, 3, g.int(0, 60), g.int(0, 400)])
    return on, off


def gen(g, i):
    ops = []
    for _ in range(g.int(1, 6)):
        k = g.choice(['one', 'one', 'der', 'der', 'offset', 'vec', 'voff', 'pois', 'pois'])
        t_on, t_off = g.choice([1., g.pos(1e-2, 1e2)]), g.choice([1., g.pos(1e-2, 1e2)])
        cut = g.choice([0., 1e-2, 1e-5, 1e-10, 1e-15, .5])
        n = g.choice([1, 1, 2, 3, 5]) if k[0] == 'v' else 1
        cs = [counts(g) for _ in range(n)]
        rate = lambda on: float(g.choice([0., (on + 1.) / t_on, g.real(0, 2) * (on + 1.) / t_on, g.pos(1e-6, 1e-2), float(g.int(0, 5)), 3 * (on + 1.) / t_on, 1e3 / t_on]))
        offs = [g.choice(['own', 'own', 'own', 0., g.real(-5, 5)]) for _ in cs]
        if k == 'pois':
            ops.append([k, g.choice([0, 1, 31, 32, 33, 34, g.int(0, 40), g.int(0, 200)]), g.choice([0., 1., g.pos(1e-3, 60), g.pos(1e-3, 300)]), t_on])
        else:
            ops.append([k, t_on, t_off, cut, [[a, b, rate(a), o] for (a, b), o in zip(cs, offs)]])
    return dict(ops=ops)


def nontrivial(c):
    return any(o[0] == 'pois' or any(x[0] > 0 and x[2] > 0 for x in o[4]) for o in c['ops'])


def tol(l, off):
    return 1e-8 + 1e-10 * (abs(off) + max(abs(x) for x in l if x > -math.inf)) + 2e-9 * len(l) ** .5


def offset(a, t_on, b, t_off, what='slml_offset'):
    """a term of the series at the estimated rate (the first one if that is not positive)"""
    v = float(slml_offset(a, t_on, b, t_off))
    s = a / t_on - b / t_off
    first = math.lgamma(a + b + 1) - math.lgamma(a + 1)
    if s > 0:
        l = cbm.logterms(s, a, t_on, b, t_off)
        m = max(l)
        # near the largest one (the index comes from the root of a quadratic)
        # (where the index is zero, the first one without its factor exp(-s t_on))
        ok = [x for k, x in enumerate(l) if x >= m - 1e-6 - 1e-6 * abs(m)] + ([first] if l[0] >= m - 1e-6 else [])
        need(any(abs(v - x) <= tol(l, 0) for x in ok), '%s(%d, %r, %d, %r) is %r, the largest term %r' % (what, a, t_on, b, t_off, v, m))
    else:
        need(abs(v - first) <= tol([first], 0), '%s(%d, %r, %d, %r) is %r, the first term %r' % (what, a, t_on, b, t_off, v, first))
    return v


def window(val, nt, l, cut, t, what, weights=None):
    """(derivative) of the run of nt terms whose sum it is"""
    n = len(l)
    need(1 <= nt <= n, '%s: %d terms of %d' % (what, nt, n))
    m = max(l)
    e = [math.exp(x - m) for x in l]
    acc = [0.]
    for x in e:
        acc.append(acc[-1] + x)
    small = lambda k: e[k] <= cut * (1 + 1e-6) or l[k] < -700
    got = []
    for lo in range(n - nt + 1):
        hi = lo + nt - 1
        if (lo == 0 or small(lo)) and (hi == n - 1 or small(hi)) and max(e[lo:hi + 1]) >= 1 - 1e-6:
            x = m + math.log(math.fsum(e[lo:hi + 1]))
            if abs(val - x) <= t:
                got.append((lo, hi))
    need(got, '%s: %r with %d terms is not the logarithm of a sum of terms down to the cutoff (all terms: %r)' % (what, val, nt, cbm.logsum(l)))
    if weights:
        return [math.fsum(e[k] * weights[k] for k in range(lo, hi + 1)) / math.fsum(e[lo:hi + 1]) for lo, hi in got]


def like(f, s, a, t_on, b, t_off, off, cut, what):
    r = f(s, a, t_on, b, t_off, off, cut)
    der = f is slmliked
    need(len(r) == (4 if der else 3), '%s: %d results' % (what, len(r)))
    l = [x - off for x in cbm.logterms(s, a, t_on, b, t_off)]
    m = max(l)
    if r[-1] != 0:
        need(abs(m) > 690 or s == 0, '%s: error flagged, largest term exp(%r)' % (what, m))
        need(s != 0, '%s: error flagged at zero signal' % what)
        return None
    need(abs(m) < 710 or s == 0, '%s: no error flagged, largest term exp(%r)' % (what, m))
    val, nt = float(r[0]), int(r[-2])
    if s == 0:
        need(nt == 1 and abs(val - l[0]) <= tol(l, off), '%s is %r (%d terms), should be %r' % (what, val, nt, l[0]))
        want = [(t_on + t_off) * a / (a + b) - t_on if a else -t_on]
    else:
        want = window(val, nt, l, cut, tol(l, off), what, [k / s - t_on for k in range(a + 1)] if der else None)
    if der:
        d = float(r[1])
        sc = t_on + t_off + (a / s if s else 0)
        need(any(abs(d - w) <= 1e-7 * sc for w in want), '%s: derivative %r, should be %r' % (what, d, want[0]))
    return val


def check(case):
    for op in case['ops']:
        k = op[0]
        if k == 'pois':
            n, mu, t_on = op[1:]
            c = np.zeros(n + 1)
            c[n] = 1.
            v = float(psigc(mu / t_on, t_on, c)) / t_on
            w = cbm.pois(n, mu / t_on * t_on)
            need(abs(v - w) <= 1e-8 * w + 1e-250, 'Poisson probability of %d at %r is %r, should be %r' % (n, mu, v, w))
            continue
        t_on, t_off, cut, rows = op[1:]
        offs = [offset(a, t_on, b, t_off) if o == 'own' else float(o) for a, b, s, o in rows]
        if k in ('one', 'der'):
            (a, b, s, o), = rows
            f = slmlike if k == 'one' else slmliked
            like(f, s, a, t_on, b, t_off, offs[0], cut, '%s(s=%r, n_on=%d, t_on=%r, n_off=%d, t_off=%r, offset=%r, cut=%r)' % (f.__name__ if hasattr(f, '__name__') else k, s, a, t_on, b, t_off, offs[0], cut))
        elif k == 'offset':
            pass
        else:
            A, B = np.array([r[0] for r in rows], dtype=np.intc), np.array([r[1] for r in rows], dtype=np.intc)
            S, O = np.array([r[2] for r in rows], dtype=float), np.array(offs, dtype=float)
            keep = [x.copy() for x in (A, B, S, O)]
            if k == 'voff':
                v = vslml_offset(A, t_on, B, t_off)
                want = [float(slml_offset(a, t_on, b, t_off)) for a, b, s, o in rows]
            else:
                v = vslmlike(S, A, t_on, B, t_off, O, cut)
                one = [slmlike(s, a, t_on, b, t_off, o, cut) for (a, b, s, _), o in zip(rows, offs)]
                want = [float(r[0]) if r[2] == 0 else None for r in one]
            need(np.shape(v) == (len(rows),), '%s: shape %s for %d channels' % (k, np.shape(v), len(rows)))
            need(all(np.array_equal(x, y) for x, y in zip(keep, (A, B, S, O))), '%s modified its arguments' % k)
            for i, w in enumerate(want):
                need(w is None or v[i] == w, '%s: channel %d is %r, alone %r' % (k, i, v[i], w))
