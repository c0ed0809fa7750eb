import math
from common import *
from inference.grid.grid1d import RefinedIntervalList1D, BasicInterval

CASE_S = 10


def gen(g, i):
    kind = g.choice(['lin', 'lin', 'log', 'neglog'])
    lo = g.pos(.1, 5) if kind != 'lin' else g.real(-5, 5)
    hi = lo * g.choice([1.5, 4., 40., 3000.]) if kind != 'lin' else lo + g.pos(.1, 30)
    if kind == 'neglog':
        lo, hi = -hi, -lo
    ups = []
    for _ in range(g.int(1, 7)):
        ups.append([g.real(-.1, 1.1), g.real(-.1, 1.1), g.choice([2, 3, 5, 11, 41, 100]), g.choice(['any', 'any', 'any', 'grid', 'narrow', 'half'])])
    return dict(kind=kind, lo=lo, hi=hi, n=g.choice([2, 3, 5, 9, 30]), ups=ups, rev=g.bool(.2), x=g.reals(4, 0, 1))


def nontrivial(c):
    return len(c['ups']) > 1


def length(kind, a, b):
    return b - a if kind == 'lin' else abs(math.log(b / a))


def shot(l):
    return [(v.lo, v.hi, v.n, abs(v.step)) for v in l.ilist]


def call(what, f, *a):
    try:
        return f(*a)
    except Exception as e:
        raise Fail('%s%r: %r' % (what, a, e), 'C14-fail')


def near(a, b, s):
    return abs(a - b) <= 1e-9 * s


def valid(c, l, W):
    k, lo, hi = c['kind'], c['lo'], c['hi']
    L = shot(l)
    need(l.nint == len(L), 'nint %r of %d' % (l.nint, len(L)), 'C14-count')
    need(near(L[0][0], lo, W) and near(L[-1][1], hi, W), 'covers %r..%r, not %r..%r' % (L[0][0], L[-1][1], lo, hi), 'C14-cover')
    for a, b in zip(L, L[1:]):
        need(near(a[1], b[0], W), 'gap between %s and %s' % (a, b), 'C14-contiguous')
    for v in L:
        if abs(v[1] - v[0]) <= 1e-9 * W:
            continue         # rounding leaves slivers at cuts
        need(v[0] < v[1] and v[2] >= 2, 'interval %r' % (v,), 'C14-order')
        s = length(k, v[0], v[1]) / (v[2] - 1)
        need(abs(s - v[3]) <= 1e-6 * s, 'interval %r has %d points but step %r' % (v[:2], v[2], v[3]), 'C14-step')
        need(v[3] <= abs(l.base.step) * (1 + 1e-9), 'coarser than the base: %r' % (v,), 'C14-base')
    need((l.base.lo, l.base.hi, l.base.n) == (lo, hi, c['n']), 'base interval changed', 'C14-base')
    cs, t = [], 0
    for v in L:
        t += v[2] - 1
        cs.append(t)
    cs[-1] += 1
    need(l.npts == t + 1 and list(l.cumpts) == cs, 'counts %r %r for %r' % (l.npts, l.cumpts, [v[2] for v in L]), 'C14-count')
    return L


def at(L, t, W):
    """spacing around t, None when t is close to a bound"""
    for v in L:
        if v[0] + 1e-7 * W < t < v[1] - 1e-7 * W:
            return v
    return None


def check(c):
    k, lo, hi, n = c['kind'], c['lo'], c['hi'], c['n']
    W = max(hi - lo, abs(lo), abs(hi))
    st = 'linear' if k == 'lin' else 'log'
    l = call('constructor', RefinedIntervalList1D, hi, lo, n, st) if c['rev'] else call('constructor', RefinedIntervalList1D, lo, hi, n, st)
    L = valid(c, l, W)
    for u, w, m, how in c['ups']:
        a, b = sorted((lo + u * (hi - lo), lo + w * (hi - lo)))
        if how == 'grid':
            v = L[int(abs(u) * 100) % len(L)]
            i = int(abs(w) * 100) % (v[2] - 1)
            f = lambda i: v[0] + (v[1] - v[0]) * i / (v[2] - 1) if k == 'lin' else v[0] * (v[1] / v[0]) ** (i / (v[2] - 1))
            a, b = f(i), f(min(v[2] - 1, i + 1 + int(abs(u) * 10) % 4))
        elif how == 'narrow':
            b = a + (hi - lo) * 1e-3 * (abs(w) + .1)
        elif how == 'half':
            a = L[int(abs(u) * 100) % len(L)][0]
            b = max(b, a)
        if b - a < 1e-6 * W or (b > lo and a < hi and min(b, hi) - max(a, lo) < 1e-6 * W):
            continue
        off = b <= lo or a >= hi
        try:
            l.update(b, a, m) if c['rev'] else l.update(a, b, m)
        except ValueError as e:
            need(off, 'update(%r, %r, %d): %r' % (a, b, m, e), 'C14-fail')
            need(shot(l) == L, 'refused update changed the list', 'C14-refused')
            continue
        except Exception as e:
            raise Fail('update(%r, %r, %d): %r' % (a, b, m, e), 'C14-fail')
        need(not off, 'update off the range accepted', 'C14-refused')
        old, L = L, valid(c, l, W)
        ca, cb = max(a, lo), min(b, hi)
        ask = length(k, ca, cb) / (m - 1)
        va, vb = [next((v for v in old if v[0] <= p <= v[1]), None) for p in (ca, cb)]

        def cut(v, p, up):
            if v is None:
                return p
            q = length(k, v[0], p) / v[3]
            i = math.ceil(q - 1e-6) if up else math.floor(q + 1e-6)
            i2 = math.ceil(q + 1e-6) if up else math.floor(q - 1e-6)      # rounding either way
            f = lambda i: v[0] + i * v[3] if k == 'lin' else v[0] * math.exp(i * v[3] * (1 if k == 'log' else -1))
            return f(i2), f(i)
        e0, e1 = cut(va, ca, False)[0] if va else ca, cut(vb, cb, True)[0] if vb else cb
        e0, e1 = max(e0, lo), min(e1, hi)
        for i in range(23):
            t = lo + (hi - lo) * (i + .5) / 23 if i < 12 else ca + (cb - ca) * (i - 11.5) / 11
            p, q = at(old, t, W), at(L, t, W)
            if p is None or q is None:
                continue
            need(q[3] <= p[3] * (1 + 1e-6), 'coarser at %r: %r before, %r after' % (t, p, q), 'C14-coarser')
            if t < e0 - 1e-7 * W or t > e1 + 1e-7 * W:
                need(q[3] >= p[3] * (1 - 1e-6), 'changed at %r outside (%r, %r): %r before, %r after' % (t, e0, e1, p, q), 'C14-outside')
            if ca < t < cb and va:
                fine = q[3] <= ask * (1 + 1e-6) or 5 * ask <= max(v[3] for v in old if v[0] <= ca <= v[1] * (1 + 1e-12)) * (1 + 1e-6) and q[3] <= length(k, e0, e1) / (m - 1) * (1 + 1e-6)
                need(fine, 'asked for %r at %r, got %r' % (ask, t, tuple(q)), 'C14-asked')
    for u in c['x'] + [0., 1.]:
        x = lo + u * (hi - lo) if u < 1 else hi
        v = call('locate', l.locate, x)
        need(any(v is w for w in l.ilist) and v.lo - 1e-12 * W <= x <= v.hi + 1e-12 * W, 'locate(%r): %r' % (x, (v.lo, v.hi)), 'C14-locate')
    for x in (lo - .1 * W, hi + .1 * W):
        try:
            l.locate(x)
            raise Fail('locate out of range', 'C14-locate')
        except ValueError:
            pass
    k2 = 0
    for i, v in enumerate(l.ilist):
        for j in range(v.n - (i < l.nint - 1)):
            if j < 3 or j > v.n - 4:
                r = call('nlocate', l.nlocate, k2)
                need(r[0] == i and r[1] == j and r[2] is v, 'nlocate(%d): %s, not interval %d point %d' % (k2, r[:2], i, j), 'C14-nlocate')
            k2 += 1
    for j in (-1, l.npts):
        try:
            l.nlocate(j)
            raise Fail('nlocate out of range', 'C14-nlocate')
        except ValueError:
            pass
    need([id(v) for v in l.nonbase()] == [id(v) for v in l.ilist if v.step != l.base.step], 'nonbase', 'C14-nonbase')
