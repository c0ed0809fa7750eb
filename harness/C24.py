import math
from common import *
from inference.utils.numutils import lin_stepper, lin_enum_stepper, log_stepper, log_enum_stepper


def gen(g, i):
    log = g.bool()
    if log:
        lo, hi = g.pos(1e-4, 1e4), g.pos(1e-4, 1e4)
    else:
        lo, hi = g.real(-100, 100), g.real(-100, 100)
    n = g.int(2, 40) if g.bool(.9) else g.int(41, 2500)
    return dict(log=log, lo=lo, hi=hi, n=n, enum=g.bool())


def check(c):
    lo, hi, n = c['lo'], c['hi'], c['n']
    f = (log_enum_stepper if c['enum'] else log_stepper) if c['log'] else (lin_enum_stepper if c['enum'] else lin_stepper)
    out = list(f(lo, hi, n))
    need(len(out) == n, 'yields %d values instead of %d', len(out), n)
    if c['enum']:
        need([int(a) for a, _ in out] == list(range(n)), 'indices %s', [a for a, _ in out][:20])
        out = [b for _, b in out]
    need(out[0] == lo and out[-1] == hi, 'ends %r %r', out[0], out[-1])
    for i, v in enumerate(out):
        if c['log']:
            e = lo * (hi / lo) ** (i / (n - 1))
            need(close(v, e, 1e-9), 'value %d is %r not %r', i, v, e)
        else:
            e = lo + i * (hi - lo) / (n - 1)
            need(close(v, e, 1e-9, 1e-9 * max(abs(lo), abs(hi), 1e-3)), 'value %d is %r not %r', i, v, e)
        tol = 1e-9 * max(abs(lo), abs(hi))
        need(min(lo, hi) - tol <= v <= max(lo, hi) + tol, 'value %r outside', v)
