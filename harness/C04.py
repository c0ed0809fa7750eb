from common import *
from piemodels import *


def gen(g, i):
    log = g.bool()
    if log:
        s = g.choice((1, -1))
        lo, hi = s * g.pos(1e-3, 1e3), s * g.pos(1e-3, 1e3)
    else:
        lo, hi = g.real(-20, 20), g.real(-20, 20)
    n = g.int(2, 12) if g.bool(.9) else g.int(13, 200)
    pat = g.choice(((4, 1, .1, .1), (1, 4, .1, .1), (3, 3, 1, 1), (8, 2, 0, .2)))
    mv = g.choices('npfl', weights=pat, k=g.int(1, 3 * n + 4) if n < 40 else g.int(1, n + 20))
    return dict(log=log, lo=lo, hi=hi, n=n, mv=''.join(mv), re=g.bool(.2), n2=g.int(2, 6), given=g.choice(['lh', 'lh', 'lh', 'l', 'h', '']))


def check(c):
    inf = inference(1)
    p = hnd(inf, 'a')
    for round_ in range(2 if c['re'] else 1):
        n = c['n'] if round_ == 0 else c['n2']
        lo, hi = (c['lo'], c['hi']) if round_ == 0 else (c['hi'], c['lo'])
        given = c.get('given', 'lh')
        if given == 'lh':
            (p.logstep if c['log'] else p.linstep if n % 2 else p.step)(lo, hi, n)
        else:                       # ends not given are those of the allowed range
            lo, hi = min(lo, hi), max(lo, hi)
            p.range(min(lo, hi) - (.5 * abs(lo) if given == 'l' else 0), max(lo, hi) + (.5 * abs(hi) if given == 'h' else 0))
            (p.logstep if c['log'] else p.linstep if n % 2 else p.step)(n=n, **dict([('lo', lo)] if given == 'l' else [('hi', hi)] if given == 'h' else []))
        k = 0
        scale = max(abs(lo), abs(hi), 1e-9)
        for i in range(len(c['mv']) + 1):
            v = float(inf.a)
            need(p.step_index() == k, 'index %r instead of %d', p.step_index(), k)
            e = lo * (hi / lo) ** (k / (n - 1)) if c['log'] else lo + k * (hi - lo) / (n - 1)
            need(close(v, e, 1e-9, 1e-10 * scale), 'value at step %d is %r not %r', k, v, e)
            if k == 0:
                need(v == lo, 'first value %r not exactly %r', v, lo)
            if k == n - 1:
                need(v == hi, 'last value %r not exactly %r', v, hi)
            if i == len(c['mv']):
                break
            m = c['mv'][i]
            t = dict(n=k + 1, p=k - 1, f=0, l=n - 1)[m]
            try:
                dict(n=p.next_step, p=p.prev_step, f=p.first_step, l=p.last_step)[m]()
                ok = True
            except ParamRangeError:
                ok = False
            need(ok == (0 <= t < n), 'move %s from %d of %d: %s', m, k, n, ok)
            if ok:
                k = t
            else:
                need(float(inf.a) == v and p.step_index() == k, 'refused move changed the state')
    p.fix(c['lo'])
    for f in (p.next_step, p.prev_step, p.first_step, p.last_step, p.step_index):
        try:
            f()
            need(False, 'moving a fixed parameter is not refused')
        except (ParamError, RuntimeError):
            pass
    need(float(inf.a) == c['lo'], 'value changed')
