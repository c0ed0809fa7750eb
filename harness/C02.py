from common import *
from piemodels import *


def val(g, lo, hi):
    u = g.random()
    if u < .3:
        return g.choice((lo, hi))
    if u < .45:
        return g.choice((lo - 1e-9, hi + 1e-9, np.nextafter(lo, -1e9).item(), np.nextafter(hi, 1e9).item()))
    w = max(hi - lo, 1e-3)
    if u < .8:
        return g.uniform(lo, hi)
    return g.uniform(lo - w, hi + w)


def gen(g, i):
    lo = g.real(-5, 5)
    hi = g.choice((lo, lo + g.pos(1e-3, 10), lo + g.pos(1e-3, 10)))
    ops = []
    for _ in range(g.int(1, 8)):
        o = g.choice(('set', 'fix', 'vary', 'lin', 'log', 'assign', 'range', 'varyr', 'fixnow', 'varynow', 'next', 'next', 'prev', 'last'))
        op = [o, val(g, lo, hi), val(g, lo, hi), g.int(2, 6)]
        if g.bool(.1):
            op[1] = int(round(op[1]))
        if o in ('range', 'varyr'):
            lo = g.real(-5, 5)
            hi = lo + g.pos(1e-3, 10)
            op += [[lo, hi] if g.bool() else [hi, lo], g.bool()]
        ops.append(op)
    return dict(r=[lo, hi] if g.bool() else [hi, lo], ops=ops, bounded=g.bool(.85))


def check(c):
    inf = inference(2)
    p = hnd(inf, 'a')
    float(inf.b)
    lo = hi = None
    if c['bounded']:
        p.range(*c['r'])
        lo, hi = min(c['r']), max(c['r'])
    declared = False
    for op in c['ops']:
        o, v, w, n = op[:4]
        st = p.status
        before = (float(inf.a), st, getattr(p, 'step_num', None), getattr(p, 'steps', None), getattr(p, 'slo', None),
                  getattr(p, 'shi', None), getattr(p, 'stype', None), p.delta, getattr(p, 'fac', None),
                  [q.name for q in inf.fixed_params], [q.name for q in inf.varying_params], [q.name for q in inf.stepping_params],
                  dict(inf.stepping_info))

        def now():
            return (float(inf.a), p.status, getattr(p, 'step_num', None), getattr(p, 'steps', None), getattr(p, 'slo', None),
                    getattr(p, 'shi', None), getattr(p, 'stype', None), p.delta, getattr(p, 'fac', None),
                    [q.name for q in inf.fixed_params], [q.name for q in inf.varying_params], [q.name for q in inf.stepping_params],
                    dict(inf.stepping_info))
        inside = lo is None or lo <= v <= hi
        if o in ('lin', 'log'):
            if o == 'log' and v * w <= 0:
                continue
            ok = inside and (lo is None or lo <= w <= hi)
            try:
                (p.linstep if o == 'lin' else p.logstep)(v, w, n)
                r = True
            except ParamRangeError:
                r = False
            need(r == ok, '%s(%r,%r) with range %r..%r: accepted=%r', o, v, w, lo, hi, r)
            if not r:
                need(now() == before, 'refused %s changed the parameter: %r -> %r', o, before, now())
            else:
                need(p.status == STEPPING and float(inf.a) == v, 'status/value after %s', o)
                declared = True             # (with this range)
            continue
        if o in ('next', 'prev', 'last'):
            if st == STEPPING:
                try:
                    dict(next=p.next_step, prev=p.prev_step, last=p.last_step)[o]()
                except ParamRangeError:
                    need(now() == before, 'refused move changed something')
                need(lo is None or not declared or lo <= float(inf.a) <= hi, 'stepping left the allowed range: %r', float(inf.a))
            continue
        if o == 'varynow':
            if lo is not None:
                p.vary(delta=.1)
                need(float(inf.a) == before[0] and p.status == VARYING, 'vary() without a start value changed the value or refused')
            continue
        if o == 'fixnow':
            p.fix()
            need(float(inf.a) == before[0] and p.status == FIXED, 'fix() changed the value')
            continue
        if o == 'range':
            p.range(*op[4]) if op[5] else p.range(tuple(op[4]))
            lo, hi = min(op[4]), max(op[4])
            declared = False
            need(float(inf.a) == before[0] and p.lo == lo and p.hi == hi, 'range()')
            continue
        try:
            if o == 'set':
                p.set_value(v)
            elif o == 'fix':
                p.fix(v)
            elif o == 'assign':
                inf.a = v
            elif o == 'vary':
                p.vary(v, .1)
            else:
                p.vary(v, .1, tuple(op[4]))
            r = 'ok'
        except ParamRangeError:
            r = 'range'
        except ParamError:
            r = 'param'
        except ValueError:
            r = 'value'
        if o == 'varyr':
            lo, hi = min(op[4]), max(op[4])
            declared = False
            inside = lo <= v <= hi
        if o == 'set' and st != VARYING:
            need(r == 'param' and now() == before, 'set_value of a non-varying parameter: %s', r)
        elif o == 'vary' and lo is None:
            need(r == 'value' and float(inf.a) == before[0], 'vary without range: %s', r)
        else:
            need(r == ('ok' if inside else 'range'), '%s(%r) range %r..%r gives %s', o, v, lo, hi, r)
            if r == 'ok':
                need(float(inf.a) == v and p.get_value() == v, 'value is %r not %r', float(inf.a), v)
                need(p.status == (FIXED if o in ('fix', 'assign') else VARYING), 'status after %s', o)
            else:
                need(float(inf.a) == before[0], 'refused %s changed the value', o)
                if o != 'vary' and o != 'varyr':
                    need(now() == before, 'refused %s changed something: %r %r', o, before, now())
