from common import *
from piemodels import *


def gen(g, i):
    n = g.int(1, 6)
    ops = []
    w = [3, 1, 3, 1, 3, 3, 1, 2, 1, 1, 1, 1]
    g.shuffle(w)
    # several instances of the same class must not share their lists
    for _ in range(g.int(3, 30)):
        o = g.choices(('assign', 'fixnow', 'vary', 'varynow', 'lin', 'log', 'next', 'reset', 'badfix', 'badvary', 'badlin', 'own'), weights=w)[0]
        ops.append([o, g.choice(ABC[:n]), g.int(2, 5), g.int(0, 1) if g.bool(.3) else 0])
    return dict(n=n, ops=ops, pre=g.bool(.5))


def view(inf):
    return ([p.name for p in inf.fixed_params], [p.name for p in inf.stepping_params], [p.name for p in inf.varying_params])


def check(c):
    infs = [inference(c['n']), inference(c['n'])]
    refs = []
    for inf in infs:
        ref = dict(order={FIXED: [], STEPPING: [], VARYING: []}, role={})
        need(view(inf) == ([], [], []), 'fresh inference has roles %r', view(inf))
        need(not inf.stepping_info, 'fresh inference has stepping directions')
        if c['pre']:
            for nm in ABC[:c['n']]:
                float(getattr(inf, nm))
                ref['order'][FIXED].append(nm)
                ref['role'][nm] = FIXED
        refs.append(ref)

    for op, nm, k, w in c['ops']:
        inf, ref = infs[w], refs[w]
        role = ref['role']
        new = None

        def moved(x, r):
            o = role.get(x)
            if o == r:
                return
            if o is not None:
                ref['order'][o].remove(x)
            ref['order'][r].append(x)
            role[x] = r
        if op == 'assign':
            setattr(inf, nm, 1.5)
            moved(nm, FIXED)
            new = FIXED
        elif op in ('next', 'reset'):
            if ref['order'][STEPPING]:
                try:
                    inf.next_step() if op == 'next' else inf.reset_steps()
                except StopStepping:
                    pass
        else:
            h = hnd(inf, nm)
            if nm not in role:
                moved(nm, FIXED)
            old = role[nm]
            err = None
            try:
                if op == 'fixnow':
                    h.fix()
                    new = FIXED
                elif op == 'vary':
                    h.vary(1.0, .1, (0., 4.))
                    new = VARYING
                elif op == 'varynow':
                    h.delta = .1
                    h.range(0., 20.)
                    h.vary()
                    new = VARYING
                elif op == 'lin':
                    h.range(0., 20.)
                    h.linstep(1., 3., k)
                    new = STEPPING
                elif op == 'log':
                    h.range(0., 20.)
                    h.logstep(1., 8., k)
                    new = STEPPING
                elif op == 'badfix':
                    h.range(0., 20.)
                    h.fix(25.)
                elif op == 'badvary':
                    h.vary(30., .1, (0., 20.))
                elif op == 'badlin':
                    h.range(0., 20.)
                    h.linstep(1., 21., 3)
                elif op == 'own':
                    if h.status == STEPPING:
                        h.last_step()
            except ParamRangeError as e:
                err = e
            if op.startswith('bad'):
                need(err is not None, '%s of %s out of range is not refused', op, nm)
                new = h.status          # a refusal may come before or after the role change
                need(new in (old, VARYING if op == 'badvary' else old), 'refused %s changed the role to %r', op, new)
                if new == old and op != 'badvary':
                    new = None
            else:
                need(err is None, '%s refused: %s', op, err)
            if new is not None:
                moved(nm, new)
                need(h.status == new, 'status %r after %s', h.status, op)
            if new is not None and STEPPING in (old, new):
                for x in ref['order'][STEPPING]:
                    hx = hnd(inf, x)
                    need(hx.step_num == 0 and float(getattr(inf, x)) == hx.slo and inf.stepping_info[hx] == nextd,
                         'stepping parameter %s not back at its first step after %s of %s', x, op, nm)
        for inf, ref in zip(infs, refs):
            want = (ref['order'][FIXED], ref['order'][STEPPING], ref['order'][VARYING])
            need(view(inf) == want, 'role lists (fixed, stepping, varying) %r, expected %r after %r', view(inf), want, (op, nm))
            need({p.name for p in inf.stepping_info} == set(want[1]) and len(inf.stepping_info) == len(want[1]),
                 'directions recorded for %r, stepping are %r', sorted(p.name for p in inf.stepping_info), want[1])
            for l, s in ((inf.fixed_params, FIXED), (inf.stepping_params, STEPPING), (inf.varying_params, VARYING)):
                for p in l:
                    need(p.status == s, 'status of %s is %r in the list of %r', p.name, p.status, s)
            for d in inf.stepping_info.values():
                need(d in (nextd, prevd), 'direction %r', d)
