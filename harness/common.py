"""Run-time side of the checks: executes the contracts of a property on the
real (staged, freshly built) package under the package's own interpreter.
Used (a) to replay verifier counterexamples, (b) to search for a failing input
when an obligation fails, (c) as conformance run of the contracts."""
import json, math, random, sys, time, hashlib, ast, re, os


class Gen(random.Random):
    """seeded generator with a pool of interesting numbers (from the
    verifier's counter-models and the literals in the anchored sources)"""
    pool_r = ()
    pool_i = ()

    def hint(self, p=0.08):
        return self.pool_r and self.random() < p

    def real(self, lo=-10., hi=10.):
        if self.hint():
            v = float(self.choice(self.pool_r))
            if lo <= v <= hi:
                return v
        u = self.random()
        if u < 0.12:
            v = float(self.randint(math.ceil(lo), math.floor(hi))) if math.ceil(lo) <= math.floor(hi) else lo
            return v
        if u < 0.16:
            return self.choice((lo, hi))
        return self.uniform(lo, hi)

    def pos(self, lo=1e-3, hi=1e3):
        if self.hint():
            v = float(self.choice(self.pool_r))
            if lo <= v <= hi:
                return v
        return math.exp(self.uniform(math.log(lo), math.log(hi)))

    def int(self, lo, hi):
        if self.pool_i and self.random() < 0.15:
            v = self.choice(self.pool_i)
            if lo <= v <= hi:
                return v
        return self.randint(lo, hi)

    def reals(self, n, lo=-10., hi=10.):
        return [self.real(lo, hi) for _ in range(n)]

    def bool(self, p=0.5):
        return self.random() < p


def literals(files):
    rs, is_ = set(), set()
    for f in files:
        try:
            s = open(f).read()
        except OSError:
            continue
        if f.endswith('.py'):
            try:
                for n in ast.walk(ast.parse(s)):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        (is_ if isinstance(n.value, int) else rs).add(n.value)
            except SyntaxError:
                pass
        else:
            for t in re.findall(r'(?<![\w.])(\d+\.?\d*(?:[dDeE][+-]?\d+)?)', s):
                try:
                    v = float(t.lower().replace('d', 'e'))
                    (is_ if v == int(v) and '.' not in t else rs).add(int(v) if v == int(v) and '.' not in t else v)
                except (ValueError, OverflowError):
                    pass
    out_i, out_r = set(), set()
    for i in is_:
        if abs(i) < 10**6:
            out_i.update((i, i - 1, i + 1))
            out_r.update((float(i), -float(i)))
    for r in rs:
        if math.isfinite(r):
            out_r.update((r, -r))
    return sorted(out_i), sorted(out_r)


def close(a, b, rel=1e-9, abs_=1e-12):
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


class Fail(Exception):
    """contract violated on the real code"""

    def __init__(self, msg, key=''):
        Exception.__init__(self, msg)
        self.key = key


def need(cond, msg, *a):
    if not cond:
        if len(a) == 1 and isinstance(a[0], str) and re.match(r'C\d\d-', a[0]):
            raise Fail(msg, a[0])
        raise Fail(msg % a if a else msg)


def jkey(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()
