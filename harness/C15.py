import math
from common import *
from inference.grid.grid1d import LabeledMaxList


def gen(g, i):
    ops = []
    vals = g.reals(g.int(1, 6), -5, 5)
    for k in range(g.int(1, 25)):
        v = g.choice(vals) if g.bool(.4) else g.real(-5, 5)
        ops.append(['limit', g.choice([1., 2., 20., 1000.])] if g.bool(.06) else ['offer', v])
    return dict(cap=g.choice([None, 1, 1, 2, 3, 5, 10]), dyn=g.choice([None, None, 1., 1.5, 5., 100., math.exp(1.5), 1e6]), ops=ops)


def nontrivial(c):
    return len(c['ops']) > 3


def check(c):
    try:
        l = LabeledMaxList(nmax=c['cap'], dynrange=c['dyn'])
    except Exception as e:
        raise Fail('constructor: %r' % e, 'C15-fail')
    D = None if c['dyn'] is None else math.log(c['dyn'])
    offered = []
    limited = []          # ranges applied explicitly: what went then is gone
    need(len(l) == 0, 'a new list is not empty', 'C15-new')
    for k, (op, v) in enumerate(c['ops']):
        if op == 'limit':
            old = [l[i] for i in range(len(l))]
            try:
                l.limitRange(v)
            except Exception as e:
                raise Fail('limitRange(%r): %r' % (v, e), 'C15-fail')
            new = [l[i] for i in range(len(l))]
            R = math.log(v)
            want = [e for e in old if old[0][0] - e[0] <= R]
            need(new == want, 'limitRange(%r) of %r gives %r' % (v, old, new), 'C15-limit')
            offered = [o for o in offered if o in new]
            continue
        try:
            l.update(v, ('lab', k))
        except Exception as e:
            raise Fail('update: %r' % e, 'C15-fail')
        offered.append((v, ('lab', k)))
        got = [l[i] for i in range(len(l))]
        vs = [e[0] for e in got]
        need(all(a >= b for a, b in zip(vs, vs[1:])), 'not sorted: %r' % got, 'C15-sorted')
        need(c['cap'] is None or len(got) <= c['cap'], 'longer than %r: %r' % (c['cap'], got), 'C15-cap')
        need(len(set(e[1] for e in got)) == len(got) and all(e in offered for e in got), 'holds what was not offered: %r' % got, 'C15-only')
        top = max(o[0] for o in offered)
        need(got and vs[0] == top, 'the largest offer is missing', 'C15-top')
        need(D is None or all(top - x <= D for x in vs), 'entry out of range: %r' % got, 'C15-range')
        for o in offered:
            if o not in got and (D is None or top - o[0] <= D):
                need(c['cap'] is not None and len(got) == c['cap'] and all(x >= o[0] for x in vs),
                     'offer %r missing from %r' % (o, got), 'C15-missing')
