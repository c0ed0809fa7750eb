import math
from common import *
from inference.utils.numutils import LogSummer


def gen(g, i):
    n = g.int(1, 30) if g.bool(.9) else g.int(30, 400)
    scale = g.choice([1., 10., 60., 700., 5000.])
    off = g.choice([0., 0., 1000., -1000., 1e5])
    terms = []
    for _ in range(n):
        u = g.random()
        if u < .1:
            terms.append(None)
        elif u < .25 and terms and terms[-1] is not None:
            terms.append(terms[-1] + g.choice([0., 40., -40., 39.9, -39.9, 40.1, -40.1, g.real(-3, 3)]))
        else:
            terms.append(off + g.real(-1, 1) * scale)
    return dict(terms=terms, dosig=g.bool(), start=[g.int(1, 9), g.real(-50, 50)] if g.bool(.2) else None)


def lse(ts):
    m = max(ts)
    return m + math.log(math.fsum(math.exp(t - m) for t in ts))


def check(c):
    st = c['start']
    s = LogSummer(dosig=c['dosig'], start=tuple(st)) if st else LogSummer(dosig=c['dosig'])
    n = st[0] if st else 0
    vals = [st[1]] if st else []
    sq = []
    for t in c['terms']:
        n += 1
        if t is None:
            s.add_zero()
        else:
            s += t
            vals.append(t)
            sq.append(2 * t)
        need(s.n == n, 'count %r not %d', s.n, n)
        if vals:
            need(close(s.logSum, lse(vals), 1e-10, 1e-10), 'log sum %r not %r', s.logSum, lse(vals))
        if c['dosig'] and sq:
            need(close(s.sigSum, lse(sq), 1e-10, 1e-10), 'log sum of squares %r not %r', s.sigSum, lse(sq))
    if not vals:
        try:
            s.status()
        except ValueError:
            return
        raise Fail('status() of a zero sum returned')
    if c['dosig'] and not sq:
        return
    out = s.status()
    L = lse(vals)
    need(out[0] == n and close(out[1], L, 1e-10, 1e-10), 'status %r', out)
    lmean = L - math.log(n)
    if not c['dosig']:
        need(len(out) == 3 and close(out[2], lmean, 1e-10, 1e-9), 'mean %r not %r', out, lmean)
        return
    need(len(out) == 5 and close(out[2], lse(sq), 1e-10, 1e-10) and close(out[3], lmean, 1e-10, 1e-9), 'status %r', out)
    if st:
        return
    l2 = lse(sq) - math.log(n)
    d = 2 * lmean - l2
    if d < -1e-6:
        e = .5 * (l2 + math.log(-math.expm1(d)))
        need(close(out[4], e, 1e-8, 1e-7), 'log sigma %r not %r', out[4], e)
