"""Integers as reals: a purely real weakening of a formula, for the nonlinear
real-arithmetic procedure.  Every model of the given formulas is a model of the
result, so unsatisfiable here means unsatisfiable there (nothing else is
concluded from it)."""
import itertools
import z3
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
CMP = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_GT: lambda a, b: a > b}
NEG = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}


class TooBig(Exception):
    pass


class Relax:
    def __init__(self):
        self.memo, self.apps, self.side, self.n = {}, {}, [], 0

    def fresh(self, s='t'):
        self.n += 1
        return z3.Real('rx!%s%d' % (s, self.n))

    def cmp(self, op, a, b, ints):
        x, y = self(a), self(b)
        if ints and op == z3.Z3_OP_LT:
            return x <= y - 1
        if ints and op == z3.Z3_OP_GT:
            return x >= y + 1
        return CMP[op](x, y)

    def __call__(self, e):
        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = (e, self.tr(e))
        return self.memo[k][1]

    def tr(self, e):
        if z3.is_quantifier(e) or z3.is_var(e):
            raise TooBig()
        op, ch = e.decl().kind(), e.children()
        if e.sort() == B:
            if op in CMP:
                return self.cmp(op, ch[0], ch[1], ch[0].sort() == I)
            if z3.is_not(e):
                c = ch[0]
                o, cc = c.decl().kind(), c.children()
                if o in CMP:
                    return self.cmp(NEG[o], cc[0], cc[1], cc[0].sort() == I)
                if z3.is_eq(c) and cc[0].sort() == I:
                    x, y = self(cc[0]), self(cc[1])
                    return z3.Or(x <= y - 1, x >= y + 1)
                return z3.Not(self(c))
            if z3.is_eq(e):
                if ch[0].sort() in (I, R, B):
                    return self(ch[0]) == self(ch[1])
                return z3.FreshConst(B)
            if z3.is_and(e):
                return z3.And([self(c) for c in ch])
            if z3.is_or(e):
                return z3.Or([self(c) for c in ch])
            if op == z3.Z3_OP_IMPLIES:
                return z3.Implies(self(ch[0]), self(ch[1]))
            if op == z3.Z3_OP_ITE:
                return z3.If(*[self(c) for c in ch])
            if op == z3.Z3_OP_DISTINCT:
                return self(z3.And([z3.Not(a == b) for a, b in itertools.combinations(ch, 2)]))
            if z3.is_true(e) or z3.is_false(e):
                return e
            if z3.is_const(e):
                return e
            raise TooBig()
        if e.sort() not in (I, R):
            raise TooBig()
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        if z3.is_rational_value(e):
            return e
        if z3.is_const(e):
            return e if e.sort() == R else z3.Real('rx!i!' + e.decl().name())
        if op == z3.Z3_OP_TO_REAL:
            return self(ch[0])
        if op == z3.Z3_OP_TO_INT:
            t, x = self.fresh('fl'), self(ch[0])
            self.side += [t <= x, x < t + 1]
            return t
        if op == z3.Z3_OP_ADD:
            return z3.Sum([self(c) for c in ch])
        if op == z3.Z3_OP_SUB:
            r = self(ch[0])
            for c in ch[1:]:
                r = r - self(c)
            return r
        if op == z3.Z3_OP_UMINUS:
            return -self(ch[0])
        if op == z3.Z3_OP_MUL:
            return z3.Product([self(c) for c in ch])
        if op == z3.Z3_OP_DIV:
            x, y, q = self(ch[0]), self(ch[1]), self.fresh('q')
            self.side.append(z3.Or(y == 0, q * y == x))
            return q
        if op == z3.Z3_OP_ITE:
            return z3.If(*[self(c) for c in ch])
        if op == z3.Z3_OP_UNINTERPRETED:
            args = [self(c) if c.sort() in (I, R) else c for c in ch]
            t = self.fresh('f')
            self.apps.setdefault(e.decl().name(), []).append((args, [c.sort() for c in ch], t))
            return t
        return self.fresh('o')          # anything else: any value

    def congruence(self):
        out = []
        for nm, l in self.apps.items():
            if len(l) > 14:
                raise TooBig()
            for (a, s, t), (b, _, u) in itertools.combinations(l, 2):
                c = []
                for x, y, so in zip(a, b, s):
                    if so == I:
                        c += [z3.And(x - y < 1, y - x < 1)]
                    elif so == R:
                        c += [x == y]
                    elif not x.eq(y):
                        break
                else:
                    c = [z3.simplify(x) for x in c]
                    if not any(z3.is_false(x) for x in c):
                        out.append(z3.Implies(z3.And(c), t == u))
        return out


def _linear(e, memo):
    """no quantifier, no product or quotient of variables: cheap for the linear solver"""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(e) or z3.is_var(e):
        r = False
    else:
        op, ch = e.decl().kind(), e.children()
        if op in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_POWER):
            r = z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])
        elif op == z3.Z3_OP_MUL:
            r = sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in ch) <= 1
        else:
            r = True
        r = r and all(_linear(c, memo) for c in ch)
    memo[k] = (e, r)
    return r


def _flat(f, out):
    if z3.is_and(f):
        for c in f.children():
            _flat(c, out)
    elif z3.is_not(f) and z3.is_or(f.arg(0)):
        for c in f.arg(0).children():
            _flat(z3.simplify(z3.Not(c)), out)
    elif z3.is_not(f) and z3.is_not(f.arg(0)):
        _flat(f.arg(0).arg(0), out)
    elif not z3.is_true(f):
        out.append(f)


def units(fs, ms=1500):
    """the facts without alternatives: clauses are resolved against the linear
    facts; what stays undecided is left out (a weakening)"""
    import time
    t0 = time.time()
    memo, todo = {}, []
    for f in fs:
        _flat(z3.simplify(f), todo)
    sol = z3.Solver()
    sol.set('timeout', 60)
    out, clauses = [], []
    for f in todo:
        ch = None
        if z3.is_or(f):
            ch = f.children()
        elif f.decl().kind() == z3.Z3_OP_IMPLIES:
            ch = [z3.simplify(z3.Not(f.arg(0))), f.arg(1)]
        elif z3.is_not(f) and z3.is_and(f.arg(0)):
            ch = [z3.simplify(z3.Not(c)) for c in f.arg(0).children()]
        if ch is None:
            out.append(f)
        else:
            clauses.append(ch)
        if _linear(f, memo):
            sol.add(f)
    for _ in range(3):
        again = []
        for ch in clauses:
            live = []
            for c in ch:
                if time.time() - t0 > ms / 1000:
                    return out
                if z3.is_false(c):
                    continue
                if _linear(c, memo):
                    sol.push()
                    sol.add(c)
                    r = sol.check()
                    sol.pop()
                    if r == z3.unsat:
                        continue
                live.append(c)
                if len(live) > 1:
                    break
            if len(live) == 1:
                new = []
                _flat(live[0], new)
                out += new
                for c in new:
                    if _linear(c, memo):
                        sol.add(c)
            elif not live:
                return [z3.BoolVal(False)]
            else:
                again.append(ch)
        if len(again) == len(clauses):
            break
        clauses = again
    return out


def unsat(fs, ms):
    try:
        us = units(fs)
        if any(z3.is_false(u) for u in us):
            return True
        return solve(us, ms // 2) or solve(fs, ms // 2)
    except (TooBig, z3.Z3Exception):
        return False


def solve(fs, ms):
    try:
        r = Relax()
        gs = [r(z3.simplify(f, elim_and=False)) for f in fs]
        gs += r.side + r.congruence()
        s = z3.Then('simplify', 'elim-term-ite', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
        s.set('timeout', ms)
        s.add(*gs)
        return s.check() == z3.unsat
    except (TooBig, z3.Z3Exception):
        return False
