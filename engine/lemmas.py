"""Background theory: finite sums and elementary functions.

SUM(f, lo, hi) = f(lo)+...+f(hi-1) is an uninterpreted function in the VCs;
its defining equations, congruence, linearity and sign facts are instantiated
(quantifier-free, with Skolem indices) for the sum terms a VC mentions.
EXP, LOG, SQRT, POW, are uninterpreted with instantiated real-analysis axioms.
"""
import itertools
from fractions import Fraction
import z3
from .core import (CTX, SReal, SInt, SBool, Unsupported, toreal, toint, kind,
                   const_of, realval)

R, I = z3.RealSort(), z3.IntSort()
ARR = z3.ArraySort(I, R)
SUM = z3.Function('SUM', ARR, I, I, R)
EXP = z3.Function('EXP', R, R)
LOG = z3.Function('LOG', R, R)
SQRT = z3.Function('SQRT', R, R)
POW = z3.Function('POW', R, R, R)
SIN = z3.Function('SIN', R, R)
COS = z3.Function('COS', R, R)
FACT = z3.Function('FACT', I, R)       # n! for n>=0
LGAM = z3.Function('LGAM', R, R)

MUL = z3.Function('MUL', R, R, R)     # product, opaque to the solver (CTX.opaque)
DIV = z3.Function('DIV', R, R, R)     # quotient, opaque to the solver
FV = z3.Function('FV', ARR, I, R)     # a pure function of a vector (elements 0..n-1, n)

FA = z3.Function('FA', ARR, R)        # a pure function of a map identity -> value

EXTRA = []      # task specific lemma schemas: f(terms) -> [facts]


_nest = 0


def mksum(fn, lo, hi):
    """SUM of fn(k) (python function on z3 Int term -> z3 Real term)"""
    global _nest
    k = z3.Int('k#sum%s' % (_nest or ''))     # distinct in nested sums
    _nest += 1
    try:
        body = fn(k)
    finally:
        _nest -= 1
    if body.sort() == I:
        body = z3.ToReal(body)
    lo, hi = toint(lo), toint(hi)
    cl, ch = const_of(lo), const_of(hi)
    if cl is not None and ch is not None and ch - cl <= 12:
        t = z3.RealVal(0)
        for j in range(int(cl), int(ch)):
            t = t + z3.substitute(body, (k, z3.IntVal(j)))
        return z3.simplify(t)
    return SUM(z3.Lambda([k], body), lo, hi)


def mul(x, y):
    """opaque product in a canonical form: constant factors pulled out"""
    c, fs = Fraction(1), []
    for t in (z3.simplify(x), z3.simplify(y)):
        if z3.is_mul(t) and t.num_args() == 2 and const_of(t.arg(0)) is not None:
            c *= Fraction(const_of(t.arg(0)))
            t = t.arg(1)
        fs.append(t)
    fs.sort(key=lambda t: t.sexpr())
    m = MUL(*fs)
    return m if c == 1 else realval(c) * m


def power(a, b):
    kb = kind(b)
    bb = None
    if isinstance(b, (int, float, Fraction)) and not isinstance(b, bool):
        bb = Fraction(repr(b)) if isinstance(b, float) else Fraction(b)
    else:
        c = const_of(b._z) if hasattr(b, '_z') else None
        if c is not None:
            bb = Fraction(c)
    if bb is not None and bb.denominator == 1 and abs(bb) <= 8:
        n = int(bb)
        if n == 0:
            return SReal(z3.RealVal(1)) if kind(a) == 'r' or kb == 'r' else SInt(z3.IntVal(1))
        r = a
        for _ in range(abs(n) - 1):
            r = r * a
        if n < 0:
            r = 1.0 / r
        if kb == 'r' and not isinstance(r, SReal):
            r = SReal(toreal(r))
        return r
    if bb == Fraction(1, 2):
        return SReal(SQRT(toreal(a)))
    return SReal(POW(toreal(a), toreal(b)))


def subterms(es):
    seen = set()
    out = []
    stack = list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(e)
        if z3.is_quantifier(e):
            continue        # closed terms only
        stack.extend(e.children())
    return out


def _closed(e, cache):
    """no free de-Bruijn variables"""
    def rec(t, depth):
        key = (t.get_id(), depth)
        if key in cache:
            return cache[key]
        if z3.is_var(t):
            r = z3.get_var_index(t) < depth
        elif z3.is_quantifier(t):
            r = rec(t.body(), depth + t.num_vars())
        else:
            r = all(rec(c, depth) for c in t.children())
        cache[key] = r
        return r
    return rec(e, 0)


def lam_at(lam, idx):
    if z3.is_quantifier(lam):
        return z3.substitute_vars(lam.body(), idx)
    return z3.Select(lam, idx)


def _poly(e, isbound, depth=0):
    """expand into {tuple(sorted bound-atom ids): (atoms, coef)}; None if big"""
    def const(c):
        return {(): ((), c)}
    if not isbound(e):
        return const(e)
    if z3.is_add(e):
        acc = {}
        for c in e.children():
            p = _poly(c, isbound, depth + 1)
            if p is None:
                return None
            for k, (at, co) in p.items():
                acc[k] = (at, acc[k][1] + co) if k in acc else (at, co)
        return acc if len(acc) <= 24 else None
    if z3.is_sub(e):
        ch = e.children()
        p = _poly(ch[0], isbound, depth + 1)
        if p is None:
            return None
        acc = dict(p)
        for c in ch[1:]:
            q = _poly(c, isbound, depth + 1)
            if q is None:
                return None
            for k, (at, co) in q.items():
                acc[k] = (at, acc[k][1] - co) if k in acc else (at, -co)
        return acc if len(acc) <= 24 else None
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        p = _poly(e.children()[0], isbound, depth + 1)
        return None if p is None else {k: (at, -co) for k, (at, co) in p.items()}
    if z3.is_mul(e):
        acc = const(z3.RealVal(1))
        for c in e.children():
            p = _poly(c, isbound, depth + 1)
            if p is None:
                return None
            new = {}
            for k1, (a1, c1) in acc.items():
                for k2, (a2, c2) in p.items():
                    at = tuple(sorted(a1 + a2, key=lambda t: t.get_id()))
                    k = tuple(t.get_id() for t in at)
                    co = c1 * c2
                    new[k] = (at, new[k][1] + co) if k in new else (at, co)
            acc = new
            if len(acc) > 24:
                return None
        return acc
    if z3.is_div(e):
        n, d = e.children()
        if not isbound(d):
            p = _poly(n, isbound, depth + 1)
            return None if p is None else {k: (at, co / d) for k, (at, co) in p.items()}
        p = _poly(n, isbound, depth + 1)
        if p is None:
            return None
        inv = z3.RealVal(1) / d
        new = {}
        for k1, (a1, c1) in p.items():
            at = tuple(sorted(a1 + (inv,), key=lambda t: t.get_id()))
            new[tuple(t.get_id() for t in at)] = (at, c1)
        return new
    return {(e.get_id(),): ((e,), z3.RealVal(1))}


def _mono_expand(lam):
    """[(lambda of monomial or None for constant 1, coefficient term)]"""
    k = z3.Int('k#mono')
    body = z3.simplify(lam_at(lam, k))
    cache = {}

    def isbound(t):
        i = t.get_id()
        if i in cache:
            return cache[i]
        r = t.eq(k) or (any(isbound(c) for c in t.children()) if not z3.is_quantifier(t) else
                        _mentions(t, k))
        cache[i] = r
        return r
    p = _poly(body, isbound)
    if p is None:
        return None
    out = []
    for kk, (atoms, co) in p.items():
        t = z3.RealVal(1)
        for a in atoms:
            t = a if t.eq(z3.RealVal(1)) else t * a
        if t.sort() == I:
            t = z3.ToReal(t)
        out.append((z3.Lambda([k], t), co))
    return out


def _mentions(t, k):
    stack = [t]
    seen = set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(k):
            return True
        stack.extend([e.body()] if z3.is_quantifier(e) else e.children())
    return False


def canon_sums(e):
    """sum terms as linear combinations of sums of monomials"""
    pairs = []
    k = z3.Int('k#mono')
    for t in _info(e)[2]:
        if t.decl().eq(SUM) and z3.is_quantifier(t.arg(0)):
            b = z3.simplify(lam_at(t.arg(0), k), som=True)
            lo, hi = z3.simplify(t.arg(1)), z3.simplify(t.arg(2))
            m = _mono_expand(z3.Lambda([k], b))
            if m:
                r = z3.RealVal(0)
                for ml, co in m:
                    r = r + co * SUM(z3.Lambda([k], z3.simplify(lam_at(ml, k), som=True)), lo, hi)
            else:
                r = SUM(z3.Lambda([k], b), lo, hi)
            pairs.append((t, r))
    return z3.substitute(e, *pairs) if pairs else e


import os
CONG_DEBUG = os.environ.get('VC_CONG')


def _equal(hyps, a, b, ms=400):
    """hyps entail a == b, by simplification or a short solver call"""
    d = z3.simplify(a == b, som=True)
    if z3.is_true(d):
        return True
    if z3.is_false(d):
        return False
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*[h for h in hyps if not (_decl_names([h]) & WATCH)])
    s.add(a != b)
    return s.check() == z3.unsat


def _holds(hyps, g, ms=400):
    """hyps entail g, with its sums and elementary functions as opaque numbers"""
    if g is None:
        return False
    if z3.is_true(g):
        return True
    ts = sorted(_info(g)[2], key=lambda t: -len(t.sexpr()))
    for i, t in enumerate(ts):
        if t.sort() == R:
            g = z3.substitute(g, (t, z3.Real('opq#%d' % i)))
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*[h for h in hyps if not (_decl_names([h]) & WATCH)])
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def congruence(hyps, goal, ctx, depth=0):
    """equal arguments give equal EXP/LOG terms, pointwise equal bodies equal
    sums: rewrite the goal accordingly (None: nothing rewritten)"""
    hyps = list(hyps)
    done = False
    for _ in range(6):
        terms = [t for t in _info(goal)[2] if t.decl().name() in ('SUM', 'EXP', 'LOG')]
        terms = sorted(terms, key=lambda t: len(t.sexpr()))[:16]
        hit = None
        for a, b in itertools.combinations(terms, 2):
            if not a.decl().eq(b.decl()) or a.eq(b):
                continue
            if a.decl().eq(SUM):
                if not (_equal(hyps, a.arg(1), b.arg(1)) and _equal(hyps, a.arg(2), b.arg(2))):
                    continue
                s = z3.Int('cg#%d' % depth)
                lo, hi = a.arg(1), a.arg(2)
                h2 = hyps + [lo <= s, s < hi]
                x, y = lam_at(a.arg(0), s), lam_at(b.arg(0), s)
                ok = _equal(h2, x, y)
                if not ok and depth < 3:
                    g = congruence(h2, x == y, ctx, depth + 1)
                    ok = _holds(h2, g)
            else:
                ok = _equal(hyps, a.arg(0), b.arg(0))
                if not ok and depth < 3 and _decl_names([a.arg(0) == b.arg(0)]) & {'SUM', 'EXP', 'LOG'}:
                    g = congruence(hyps, a.arg(0) == b.arg(0), ctx, depth + 1)
                    ok = _holds(hyps, g)
            if ok:
                hit = (b, a)
                break
        if hit is None:
            break
        done = True
        goal = z3.simplify(z3.substitute(goal, hit), som=True)
        if z3.is_true(goal):
            return goal
    if done:
        goal = z3.simplify(canon_sums(goal), som=True)
        if CONG_DEBUG:
            print('congruence', depth, goal)
        return goal
    return None


def prepare(fs, light=False):
    """replace sum terms by constants and add the lemma instances"""
    fs = [f for f in fs]
    names = _decl_names(fs)
    if not (names & WATCH) and not EXTRA:
        return fs
    reg = {}        # sexpr id -> (const, lam, lo, hi)
    order = []
    facts = []

    def collect(es):
        new = []
        for t in (t for f in es for t in _info(f)[2]):
            if t.decl().eq(SUM):
                if t.get_id() not in reg:
                    c = z3.Real('sum#%d' % len(reg))
                    reg[t.get_id()] = (c, t.arg(0), t.arg(1), t.arg(2), t)
                    order.append(t.get_id())
                    new.append(t.get_id())
        return new

    if 'SUM' in names:
        fs = [z3.simplify(f, som=False) for f in fs]
        collect(fs)
        if not light:
            # monomial expansion (linearity)
            if len(order) <= 14:
                for i in list(order):
                    c, lam, lo, hi, t = reg[i]
                    m = _mono_expand(lam)
                    if not m:
                        continue
                    if len(m) == 1 and const_of(m[0][1]) == 1:
                        continue
                    rhs = z3.RealVal(0)
                    for ml, co in m:
                        rhs = rhs + co * SUM(ml, lo, hi)
                    rhs = z3.simplify(rhs)
                    collect([rhs])
                    facts.append(t == rhs)
            items = [reg[i] for i in order]
            sk = itertools.count()
            for (c, f, lo, hi, t) in items:
                n = hi - lo
                facts.append(z3.Implies(hi <= lo, t == 0))
                facts.append(z3.Implies(hi == lo + 1, t == lam_at(f, lo)))
                s = z3.Int('sk#%d' % next(sk))
                facts.append(z3.Or(t >= 0, z3.And(lo <= s, s < hi, lam_at(f, s) < 0)))
                s = z3.Int('sk#%d' % next(sk))
                facts.append(z3.Or(hi <= lo, t > 0, z3.And(lo <= s, s < hi, lam_at(f, s) <= 0)))
                if z3.is_quantifier(f) and const_of(f.body()) is not None:
                    facts.append(z3.Implies(hi >= lo, t == z3.ToReal(hi - lo) * f.body()))
            if len(items) <= 12:
                for (c1, f1, l1, h1, t1), (c2, f2, l2, h2, t2) in itertools.permutations(items, 2):
                    n1, n2 = h1 - l1, h2 - l2
                    s = z3.Int('sk#%d' % next(sk))
                    if c1.get_id() < c2.get_id():
                        facts.append(z3.Or(n1 != n2, t1 == t2,
                                           z3.And(0 <= s, s < n1, lam_at(f1, l1 + s) != lam_at(f2, l2 + s))))
                        s = z3.Int('sk#%d' % next(sk))
                        if len(items) <= 5:
                            facts.append(z3.Or(n1 != n2, t1 == t2,
                                           z3.And(0 <= s, s < n1, lam_at(f1, l1 + s) != lam_at(f2, h2 - 1 - s))))
                    s = z3.Int('sk#%d' % next(sk))
                    facts.append(z3.Or(n2 != n1 + 1, n1 < 0, t2 == t1 + lam_at(f2, h2 - 1),
                                       z3.And(0 <= s, s < n1, lam_at(f1, l1 + s) != lam_at(f2, l2 + s))))
                    s = z3.Int('sk#%d' % next(sk))
                    if len(items) <= 5:
                        facts.append(z3.Or(n2 != n1 + 1, n1 < 0, t2 == t1 + lam_at(f2, l2),
                                       z3.And(0 <= s, s < n1, lam_at(f1, l1 + s) != lam_at(f2, l2 + 1 + s))))
                    s = z3.Int('sk#%d' % next(sk))
                    facts.append(z3.Or(n1 != n2, t1 <= t2,
                                       z3.And(0 <= s, s < n1, lam_at(f1, l1 + s) > lam_at(f2, l2 + s))))
                if 3 <= len(items) <= 6:
                    for (c1, f1, l1, h1, t1), (c2, f2, l2, h2, t2), (c3, f3, l3, h3, t3) in itertools.permutations(items, 3):
                        if f1.eq(f2) and f2.eq(f3):
                            facts.append(z3.Implies(z3.And(l1 == l3, h1 == l2, h2 == h3, l1 <= h1, h1 <= h3),
                                                    t3 == t1 + t2))
            facts = [z3.simplify(f) for f in facts]
            new = collect(facts)
            if new and len(new) <= 8:
                # sums that appeared inside the bodies of the others
                old = [reg[i] for i in order if i not in new][:10]
                nw = [reg[i] for i in new]
                more = []
                for x, (c1, f1, l1, h1, t1) in enumerate(nw):
                    more.append(z3.Implies(h1 <= l1, t1 == 0))
                    s = z3.Int('sk#%d' % next(sk))
                    more.append(z3.Or(t1 >= 0, z3.And(l1 <= s, s < h1, lam_at(f1, s) < 0)))
                    for (c2, f2, l2, h2, t2) in old + nw[:x]:
                        s = z3.Int('sk#%d' % next(sk))
                        more.append(z3.Or(h1 - l1 != h2 - l2, t1 == t2,
                                          z3.And(0 <= s, s < h1 - l1, lam_at(f1, l1 + s) != lam_at(f2, l2 + s))))
                        s = z3.Int('sk#%d' % next(sk))
                        more.append(z3.Or(h1 - l1 != h2 - l2, t1 <= t2,
                                          z3.And(0 <= s, s < h1 - l1, lam_at(f1, l1 + s) > lam_at(f2, l2 + s))))
                        s = z3.Int('sk#%d' % next(sk))
                        more.append(z3.Or(h1 - l1 != h2 - l2, t1 >= t2,
                                          z3.And(0 <= s, s < h1 - l1, lam_at(f1, l1 + s) < lam_at(f2, l2 + s))))
                more = [z3.simplify(f) for f in more]
                collect(more)
                facts += more
    allf = fs + facts
    for ex in EXTRA:
        facts2 = ex(allf, light)
        allf = allf + facts2
    allf = allf + elementary(allf, light)
    fvt = {t.get_id(): t for f in allf for t in _info(f)[2] if t.decl().eq(FV) or t.decl().eq(FA)} if names & {'FV', 'FA'} else {}
    if fvt:
        pairs = [(t, z3.Real('fv#%d' % i)) for i, t in enumerate(fvt.values())]
        allf = [z3.substitute(f, *pairs) for f in allf]
    if reg:
        collect(allf)
        for _ in range(2):
            pairs = [(reg[i][4], reg[i][0]) for i in order]
            allf = [z3.substitute(f, *pairs) for f in allf]
    return allf


WATCH = {'SUM', 'EXP', 'LOG', 'SQRT', 'POW', 'SIN', 'COS', 'FACT', 'LGAM', 'MUL', 'DIV', 'FV', 'FA'}


_INFO = {}


def _info(f):
    """(names of the function symbols, watched closed terms) of one formula; cached"""
    r = _INFO.get(f.get_id())
    if r is not None and r[0].eq(f):
        return r
    seen, names, watched = set(), set(), []
    stack = [(f, True)]
    while stack:
        e, top = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append((e.body(), False))
            continue
        if z3.is_app(e) and e.num_args():
            n = e.decl().name()
            names.add(n)
            if n in WATCH and top:
                watched.append(e)
            stack.extend((c, top) for c in e.children())
    cache = {}
    watched = [e for e in watched if _closed(e, cache)]
    r = (f, names, watched)
    _INFO[f.get_id()] = r
    return r


def _decl_names(fs):
    names = set()
    for f in fs:
        names |= _info(f)[1]
    return names


def elementary(fs, light):
    got = {}
    for f in fs:
        for t in _info(f)[2]:
            n = t.decl().name()
            if n != 'SUM':
                got.setdefault(n, {})[t.get_id()] = t
    out = []
    muls = list(got.get('MUL', {}).values())
    divs = list(got.get('DIV', {}).values())
    for t in muls + divs:
        r = _INFO.get(('md', t.get_id()))
        if r is None:
            a, b = t.arg(0), t.arg(1)
            same = z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0))
            r = [same == (t > 0), z3.Or(a == 0, b == 0) == (t == 0)] if t.decl().eq(MUL) else \
                [z3.Implies(b != 0, z3.And(same == (t > 0), (a == 0) == (t == 0)))]
            _INFO[('md', t.get_id())] = r
        out += r
    for t in divs:
        q = t.arg(1)
        for m in muls:
            if not (m.arg(0).eq(q) or m.arg(1).eq(q)):
                continue
            r = _INFO.get(('dm', t.get_id(), m.get_id()))
            if r is None:
                p, y = t.arg(0), m.arg(1) if m.arg(0).eq(q) else m.arg(0)
                r = [z3.Implies(q > 0, z3.And((p > m) == (t > y), (p < m) == (t < y))),
                     z3.Implies(q < 0, z3.And((p > m) == (t < y), (p < m) == (t > y)))]
                _INFO[('dm', t.get_id(), m.get_id())] = r
            out += r
    fvs = list(got.get('FV', {}).values())
    for a, b in itertools.combinations(fvs, 2):
        # extensionality of a pure function of the vector
        s = z3.Int('fvsk#%d#%d' % (a.get_id(), b.get_id()))
        out.append(z3.Or(a == b, a.arg(1) != b.arg(1),
                         z3.And(0 <= s, s < a.arg(1), lam_at(a.arg(0), s) != lam_at(b.arg(0), s))))
    for a, b in itertools.combinations(list(got.get('FA', {}).values()), 2):
        s = z3.Int('fask#%d#%d' % (a.get_id(), b.get_id()))
        out.append(z3.Or(a == b, lam_at(a.arg(0), s) != lam_at(b.arg(0), s)))
    exps = list(got.get('EXP', {}).values())
    logs = list(got.get('LOG', {}).values())
    for t in exps:
        a = t.arg(0)
        out += [t > 0, z3.Implies(a == 0, t == 1)]
        out += [z3.Implies(a > 0, t > 1), z3.Implies(a < 0, t < 1)]
        if not light:
            out.append(t >= 1 + a)
    for t in got.get('SQRT', {}).values():
        out.append(z3.Implies(t.arg(0) >= 0, z3.And(t >= 0, t * t == t.arg(0))))
        out.append(z3.Implies(t.arg(0) > 0, t > 0))
    for t in logs:
        a = t.arg(0)
        out += [z3.Implies(a == 1, t == 0), z3.Implies(a > 1, t > 0),
                z3.Implies(z3.And(a > 0, a < 1), t < 0)]
        if not light:
            out.append(z3.Implies(a > 0, t <= a - 1))
    for e in exps:
        for l in logs:
            out.append(z3.Implies(z3.And(l.arg(0) > 0, e.arg(0) == l), e == l.arg(0)))
            out.append(z3.Implies(l.arg(0) == e, l == e.arg(0)))
    if light or len(exps) > 40 or len(logs) > 40:
        return out
    for a, b in itertools.combinations(exps, 2):
        out.append((a.arg(0) < b.arg(0)) == (a < b))
        out.append((a.arg(0) == b.arg(0)) == (a == b))
        out.append(z3.Implies(a.arg(0) == -b.arg(0), a * b == 1))
    for a, b in itertools.combinations(logs, 2):
        pos = z3.And(a.arg(0) > 0, b.arg(0) > 0)
        out.append(z3.Implies(pos, (a.arg(0) < b.arg(0)) == (a < b)))
        out.append(z3.Implies(pos, (a.arg(0) == b.arg(0)) == (a == b)))
        out.append(z3.Implies(z3.And(pos, a.arg(0) * b.arg(0) == 1), a == -b))
    if len(exps) <= 7:
        for a, b in itertools.combinations_with_replacement(exps, 2):
            for c in exps:
                if c is not a and c is not b:
                    d = z3.simplify(c.arg(0) - a.arg(0) - b.arg(0), som=True)
                    out.append(c == a * b if const_of(d) == 0 else z3.Implies(d == 0, c == a * b))
    if len(logs) <= 6:
        for a, b in itertools.combinations_with_replacement(logs, 2):
            for c in logs:
                if c is not a and c is not b:
                    out.append(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0,
                                                 c.arg(0) == a.arg(0) * b.arg(0)), c == a + b))
    pows = list(got.get('POW', {}).values())
    for p in pows:
        x, y = p.arg(0), p.arg(1)
        out += [z3.Implies(x > 0, p > 0), z3.Implies(y == 0, p == 1), z3.Implies(y == 1, p == x),
                z3.Implies(x == 1, p == 1), z3.Implies(z3.And(x >= 0, y > 0), p >= 0),
                z3.Implies(z3.And(x == 0, y > 0), p == 0)]
    for a, b in itertools.permutations(pows, 2):
        out.append(z3.Implies(z3.And(a.arg(0) == b.arg(0), a.arg(0) > 0, a.arg(1) == b.arg(1) + 1), a == b * a.arg(0)))
        out.append(z3.Implies(z3.And(a.arg(0) == b.arg(0), z3.IsInt(b.arg(1)), b.arg(1) >= 0,
                                     a.arg(1) == b.arg(1) + 1), a == b * a.arg(0)))
    for p in pows:
        for e in exps:
            for f in exps:
                out.append(z3.Implies(z3.And(p.arg(0) == e, f.arg(0) == e.arg(0) * p.arg(1)), p == f))
    facs = list(got.get('FACT', {}).values())
    for t in facs:
        n = t.arg(0)
        out += [t >= 1, z3.Implies(n == 0, t == 1), z3.Implies(n == 1, t == 1)]
    for a, b in itertools.permutations(facs, 2):
        out.append(z3.Implies(z3.And(a.arg(0) == b.arg(0) + 1, b.arg(0) >= 0), a == b * z3.ToReal(a.arg(0))))
    return out


# ---------------------------------------------------- python level functions
def f_exp(x):
    if isinstance(x, (int, float)) and x == 0:
        return SReal(z3.RealVal(1))
    return SReal(EXP(toreal(x)))


def f_log(x):
    return SReal(LOG(toreal(x)))


def f_sqrt(x):
    z = toreal(x)
    c = const_of(z)
    if c is not None:
        import math
        n, d = Fraction(c).numerator, Fraction(c).denominator
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return SReal(realval(Fraction(math.isqrt(n), math.isqrt(d))))
    return SReal(SQRT(z))
