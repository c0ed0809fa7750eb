from common import *
from piemodels import *


def gen(g, i):
    n = g.int(1, 6)
    roles = [g.choice('fvu') for _ in range(n)]
    if g.bool(.25):
        roles[g.int(0, n - 1)] = 's'
    ch = [[g.choice(('set', 'fix', 'vary', 'assign')), g.int(0, n - 1), g.real(-9, 9)] for _ in range(g.int(0, 10))]
    return dict(n=n, roles=roles, vals=[g.choice((g.real(-9, 9), 0., 1e-300, 3)) for _ in range(n)], ch=ch)


def check(c):
    inf = inference(c['n'])
    for k, r, v in zip(ABC, c['roles'], c['vals']):
        if r == 'u':
            continue
        setattr(inf, k, v)
        if r == 'v':
            hnd(inf, k).vary(v, .1, (-10., 10.))
        elif r == 's':
            hnd(inf, k).linstep(v, v + 1, 3)
    names = ABC[:c['n']]
    before = {k: float(getattr(inf, k)) for k in names}
    pv = inf.get_params()
    pv2 = inf.get_params()
    need(list(pv.names) == list(names), 'snapshot names %r', pv.names)
    for k in names:
        need(getattr(pv, k) == before[k], 'snapshot of %s: %r, value %r', k, getattr(pv, k), before[k])
    if 's' in c['roles']:
        try:
            inf.set_params(pv)
            need(False, 'restoring while stepping is not refused')
        except ParamError:
            pass
        need(hnd(inf, names[c['roles'].index('s')]).status == STEPPING, 'refusal changed the role')
        return
    for o, i, v in c['ch']:
        k = names[i]
        h = hnd(inf, k)
        h.range(-10., 10.)
        if o == 'set' and h.status == VARYING:
            h.set_value(v)
        elif o == 'vary':
            h.vary(v, .1, (-10., 10.))
        elif o in ('fix', 'assign'):
            setattr(inf, k, v)
        for q in names:
            need(getattr(pv, q) == before[q], 'snapshot of %s changes with the parameters', q)
    st = [hnd(inf, k).status for k in names]
    ls = [[p.name for p in l] for l in (inf.fixed_params, inf.varying_params, inf.stepping_params)]
    inf.set_params(pv)
    for k in names:
        need(float(getattr(inf, k)) == before[k] and float(hnd(inf, k).get_value()) == before[k], '%s restored to %r, stored %r', k, float(getattr(inf, k)), before[k])
        need(getattr(pv2, k) == before[k] and getattr(pv, k) == before[k], 'snapshot changed by restoring')
    need([hnd(inf, k).status for k in names] == st, 'roles changed by restoring')
    need([[p.name for p in l] for l in (inf.fixed_params, inf.varying_params, inf.stepping_params)] == ls, 'role lists changed by restoring')
    need(len(set(map(id, (pv, pv2)))) == 2, 'same object')
