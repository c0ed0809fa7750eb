"""VC generator core: symbolic values, path exploration, obligations.

The real Python source from /repo is executed (after the mechanical loop/list
rewriting in loader.py) on symbolic values.  Every branch on a symbolic truth
value forks the path (by re-execution along a decision trace); every contract
clause becomes a proof obligation  PC |= clause  discharged by an SMT solver.
"""
import time, itertools, os
from fractions import Fraction
import z3

z3.set_param('model.completion', True)

BRANCH_MS = int(os.environ.get('VC_BRANCH_MS', '150'))
PROVE_MS = int(os.environ.get('VC_PROVE_MS', '8000'))


class Unsupported(BaseException):
    """construct outside the modelled subset: the task is undecided"""


class PathEnd(BaseException):
    """this path stops here (infeasible or already covered)"""


class Obligation:
    def __init__(self, name, status, backend, secs, model=None, reason='',
                 path=None, imprecise=False):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.model, self.reason, self.path = model, reason, path
        self.imprecise = imprecise
        self.sat = False           # the solver found a model (as opposed to giving up)

    def asdict(self):
        return dict(name=self.name, status=self.status, backend=self.backend,
                    secs=round(self.secs, 4), model=self.model,
                    reason=self.reason, imprecise=self.imprecise, sat=self.sat)


class Ctx:
    def __init__(self):
        self.reset_task()

    def reset_task(self):
        self.obligs = []
        self.solver_s = 0.0
        self.npaths = 0
        self.deadline = None
        self.max_paths = 4000
        self.loop_cache = {}
        self.nsub = 0
        self.inputs = {}           # name -> z3 term, reported in counter models
        self.assumed = set()       # names of assumed contracts used
        self.functions = set()     # functions executed from /repo source
        self.contracts = set()     # functions whose contract was used modularly
        self.lemmas = set()
        self.proved = {}
        self.shaky = False         # an invariant was dropped because the solver gave up
        self.memo = {}
        self.quiet = 0             # >0: obligations not recorded (discovery)
        self.reset_path([])

    def reset_path(self, trace):
        self.pc = []
        self.trace = trace
        self.pos = 0
        self.pending = []
        self.ctr = {}
        self.imprecise = False
        self.roots = []
        self.stores = []
        self.facts = []            # lemma facts valid globally (not path conds)
        self.key = ()
        self.loop_hints = []
        self.unmod = []
        self.peel = False
        self.unroll = 0
        self.opaque = False
        self.normal = None      # contract's rewriting of products and quotients (proves what it uses)
        self.memo_ext = False
        self.extmemo = []

    # ---- fresh symbols
    def fresh(self, base, sort):
        n = self.ctr.get(base, 0)
        self.ctr[base] = n + 1
        return z3.Const('%s!%d' % (base, n) if n else base, sort)

    def fresh_fn(self, base, *sorts):
        n = self.ctr.get(base, 0)
        self.ctr[base] = n + 1
        return z3.Function('%s!%d' % (base, n) if n else base, *sorts)

    # ---- path condition
    def assume(self, e):
        e = tobool(e)
        if z3.is_true(e):
            return
        if z3.is_false(z3.simplify(e)):
            raise PathEnd()
        self.pc.append(e)

    def _check(self, extra, ms):
        from . import lemmas
        self.tick()
        key = tuple(e.get_id() for e in self.pc) + tuple(e.get_id() for e in extra)
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        fs0 = list(self.pc) + list(extra)
        fs = lemmas.prepare(fs0, light=True)
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.memo[key] = (r, fs0)
        return r

    def feasible(self, e):
        return self._check([e], BRANCH_MS) != z3.unsat

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('task time budget exhausted')

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            self.pc.append(e if d[0] else z3.Not(e))
            self.key += (d[0],)
            return d[0]
        t = self.feasible(e)
        f = self.feasible(z3.Not(e)) if t else True
        if t and f:
            self.pending.append(self.trace + [(False,)])
            self.trace = self.trace + [(True,)]
            self.pos += 1
            self.pc.append(e)
            self.key += (True,)
            return True
        d = bool(t)
        self.trace = self.trace + [(d,)]
        self.pos += 1
        self.pc.append(e if d else z3.Not(e))
        self.key += (d,)
        return d

    def choose(self, n, label=''):
        """nondeterministic choice among n alternatives (all explored)"""
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            self.key += (d[0],)
            return d[0]
        for i in range(n - 1, 0, -1):
            self.pending.append(self.trace + [(i,)])
        self.trace = self.trace + [(0,)]
        self.pos += 1
        self.key += (0,)
        return 0

    # ---- obligations
    def prove(self, name, cond, hyps=()):
        """obligation: the current path condition entails cond"""
        if self.quiet:
            return
        self.tick()
        cond = tobool(cond)
        pre = list(self.pc) + list(hyps)
        # the very same entailment met again on a path with the same prefix
        key = (name, cond.get_id()) + tuple(e.get_id() for e in map(tobool, pre)) + tuple(e.get_id() for e in map(tobool, self.facts))
        if key in self.proved:
            return self.proved[key][0]
        r = solve_valid(pre, cond, self)
        r.name = name
        if r.status == 'discharged':
            self.proved[key] = (r, cond, pre, list(self.facts))         # (terms kept alive: ids stay unique)
        r.path = len(self.pc)
        r.imprecise = self.imprecise
        self.obligs.append(r)
        return r

    def valid(self, cond, ms=None):
        """internal validity test (no obligation recorded)"""
        r = solve_valid(list(self.pc), tobool(cond), self, ms=ms or 3000,
                        portfolio=False)
        return r

    def cover(self, name):
        """reachability (anti-vacuity): path condition must be satisfiable"""
        if self.quiet:
            return
        r = self._check([], 4000)
        self.obligs.append(Obligation('cover:' + name,
                                      'discharged' if r != z3.unsat else 'vacuous',
                                      'z3', 0.0))


CTX = Ctx()


def model_dict(m, ctx):
    out = {}
    for k, t in list(ctx.inputs.items()):
        try:
            v = m.eval(t, model_completion=True)
            out[k] = z3num(v)
        except Exception:
            pass
    for d in m.decls():
        if d.arity() == 0 and len(out) < 120:
            try:
                v = z3num(m[d])
                if v is not None:
                    out.setdefault(d.name(), v)
            except Exception:
                pass
        elif d.arity() > 0:
            try:
                for i, en in enumerate(m[d].as_list()[:6]):
                    v = z3num(en[-1] if isinstance(en, list) else en)
                    if v is not None:
                        out.setdefault('%s#%d' % (d.name(), i), v)
            except Exception:
                pass
    return {k: v for k, v in out.items() if v is not None}


def z3num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def solve_valid(hyps, goal, ctx, ms=None, portfolio=True):
    from . import lemmas
    ms = ms or PROVE_MS
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Obligation('', 'discharged', 'z3-simplify', time.time() - t0)
    if z3.is_and(goal):   # split conjunctions
        worst = None
        for c in goal.children():
            r = solve_valid(hyps, c, ctx, ms, portfolio)
            if r.status != 'discharged':
                return r
            worst = r
        worst.secs = time.time() - t0
        return worst
    if 'SUM' in lemmas._decl_names([goal]):
        # sums whose terms agree as polynomials are the same sum
        g = z3.simplify(lemmas.canon_sums(goal), som=True)
        if z3.is_true(g):
            return Obligation('', 'discharged', 'z3-simplify', time.time() - t0)
    if lemmas._decl_names([goal]) & {'SUM', 'EXP', 'LOG'}:
        g = lemmas.congruence(hyps, goal, ctx)
        if g is not None and z3.is_true(g):
            return Obligation('', 'discharged', 'z3 (congruence)', time.time() - t0)
    fs0 = hyps + [z3.Not(goal)]
    fs = lemmas.prepare(fs0)
    tries = [('z3', None, ms)] + ([('z3-nlsat (integers as reals)', 'rx', ms // 2)] if ms >= 2000 else [])
    if portfolio:
        tries = [('z3', None, min(ms, 3000)), ('z3-nlsat (integers as reals)', 'rx', min(ms, 4000)), ('z3-nlsat', 'nl', ms), ('z3', 's2', ms)]
    status, model, reason, be = 'unknown', None, '', 'z3'
    for be, kind, lim in tries:
        if kind == 'rx':
            from . import relax
            if relax.unsat(fs, lim):
                status = 'discharged'
                break
            continue
        if kind == 'nl':
            try:
                s = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
            except z3.Z3Exception:
                continue
        else:
            s = z3.Solver()
            if kind == 's2':
                s.set('random_seed', 7)
                s.set('smt.arith.solver', 2)
        s.set('timeout', lim)
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception as e:
            reason = str(e)
            continue
        if r == z3.unsat:
            status = 'discharged'
            break
        if r == z3.sat:
            # with lemma-instantiated symbols a model may be spurious
            status = 'unknown' if (lemmas._decl_names(fs0) & lemmas.WATCH) else 'refuted'
            reason = 'model under instantiated lemmas only' if status == 'unknown' else ''
            try:
                model = model_dict(s.model(), ctx)
            except z3.Z3Exception:
                model = {}
            break
        reason = s.reason_unknown()
    if status == 'unknown' and portfolio and model is None:
        r = cvc5_check(fs, ms)
        if r == 'unsat':
            status, be = 'discharged', 'cvc5'
    dt = time.time() - t0
    ctx.solver_s += dt
    ob = Obligation('', status, be, dt, model=model, reason=reason)
    ob.sat = model is not None and status != 'discharged'
    if status != 'discharged':
        ob.goal = str(z3.simplify(goal))[:600]
        ob.reason = (ob.reason + ' goal: ' + ob.goal).strip()
    return ob


def cvc5_check(fs, ms):
    """second opinion through SMT-LIB text"""
    try:
        import cvc5
        s = z3.Solver()
        s.add(*fs)
        txt = s.to_smt2()
        if 'lambda' in txt:
            return 'unknown'
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(ms))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if out.strip() in ('sat', 'unsat', 'unknown'):
                res = out.strip()
        return res
    except Exception:
        return 'unknown'


# ------------------------------------------------------------------ values
def rat(v):
    """decimal meaning of a numeric literal"""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float constant in symbolic arithmetic')
        f = Fraction(v)
        g = Fraction(repr(v))
        return g
    raise Unsupported('not a number: %r' % (v,))


def realval(v):
    f = rat(v)
    return z3.RealVal(str(f.numerator)) if f.denominator == 1 else \
        z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def is_num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) or isinstance(v, bool)


def toreal(v):
    if isinstance(v, SReal):
        return v._z
    if isinstance(v, SInt):
        return z3.simplify(z3.ToReal(v._z))
    if isinstance(v, SBool):
        return z3.If(v._z, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, z3.ExprRef):
        if v.sort() == z3.IntSort():
            return z3.ToReal(v)
        return v
    if hasattr(v, '_vc_real'):
        return v._vc_real()
    return realval(v)


def toint(v):
    if isinstance(v, SInt):
        return v._z
    if isinstance(v, SBool):
        return z3.If(v._z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    if isinstance(v, z3.ExprRef):
        return v
    if hasattr(v, '_vc_int'):
        return v._vc_int()
    raise Unsupported('not an integer: %r' % (v,))


def tobool(v):
    if isinstance(v, SBool):
        return v._z
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, (list, tuple)):
        return z3.And(*[tobool(x) for x in v]) if v else z3.BoolVal(True)
    if isinstance(v, SReal):
        return v._z != 0
    if isinstance(v, SInt):
        return v._z != 0
    raise Unsupported('not a boolean: %r' % (v,))


def const_of(z):
    """python number if the term is a literal, else None"""
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    return None


NUMK = (int, float, Fraction)


def kind(v):
    if isinstance(v, SBool) or isinstance(v, bool):
        return 'b'
    if isinstance(v, SInt) or isinstance(v, int):
        return 'i'
    if isinstance(v, SReal) or isinstance(v, (float, Fraction)):
        return 'r'
    if hasattr(v, '_vc_int'):
        return 'i'
    if hasattr(v, '_vc_real'):
        return 'r'
    return None


INF = float('inf')


def _isinf(v):
    return isinstance(v, float) and v in (INF, -INF)


class NonFinite(Exception):
    pass


def wrapr(z):
    return SReal(z)


def arith(op, a, b):
    ka, kb = kind(a), kind(b)
    if ka is None or kb is None:
        return NotImplemented
    if _isinf(a) or _isinf(b):
        raise Unsupported('arithmetic with infinity')
    if op in ('+', '-', '*'):
        if ka in 'ib' and kb in 'ib':
            x, y = toint(a), toint(b)
            return SInt(x + y if op == '+' else x - y if op == '-' else x * y)
        x, y = toreal(a), toreal(b)
        if op == '*' and CTX.opaque and const_of(x) is None and const_of(y) is None:
            from .lemmas import mul
            return SReal(mul(x, y))
        r = SReal(x + y if op == '+' else x - y if op == '-' else x * y)
        return CTX.normal(r) if op == '*' and CTX.normal else r
    if op == '/':
        y = toreal(b)
        zero = (y == 0)
        if CTX.branch(zero):
            raise ZeroDivisionError('float division by zero')
        if CTX.opaque and const_of(y) is None:
            from .lemmas import DIV
            return SReal(DIV(z3.simplify(toreal(a)), z3.simplify(y)))
        r = SReal(toreal(a) / y)
        return CTX.normal(r) if CTX.normal else r
    if op in ('//', '%'):
        if ka in 'ib' and kb in 'ib':
            x, y = toint(a), toint(b)
            if CTX.branch(y == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            q = floordiv(x, y)
            return SInt(q if op == '//' else x - y * q)
        x, y = toreal(a), toreal(b)
        if CTX.branch(y == 0):
            raise ZeroDivisionError('float floor division by zero')
        q = z3.ToReal(z3.ToInt(x / y))
        return SReal(q if op == '//' else x - y * q)
    if op == '**':
        from .lemmas import power
        return power(a, b)
    raise Unsupported(op)


def floordiv(x, y):
    c = const_of(y)
    if c is not None and c > 0:
        return x / y
    return z3.If(y > 0, x / y, (-x) / (-y))


def compare(op, a, b):
    ka, kb = kind(a), kind(b)
    if ka is None or kb is None:
        return NotImplemented
    for u, v, flip in ((a, b, False), (b, a, True)):
        if isinstance(v, float) and (v in (INF, -INF) or v != v):
            if v != v:
                return op == '!='
            pos = v > 0
            o = op if not flip else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False, '!=': True}[o]
    if ka in 'ib' and kb in 'ib':
        x, y = toint(a), toint(b)
    else:
        x, y = toreal(a), toreal(b)
    z = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
         '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
    return SBool(z)


class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(z3.simplify(self._z))[:200])

    def __str__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'

    def __index__(self):
        c = const_of(self._z)
        if c is not None and Fraction(c).denominator == 1 and isinstance(self, SInt):
            return int(c)
        if isinstance(self, SInt):
            return concretize_int(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def copy(self):
        return self

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def concretize_int(s, limit=12):
    """fork on every feasible value when the path condition bounds it"""
    z = s._z
    for v in range(0, limit):
        if CTX.branch(z == v):
            return v
    if CTX.feasible(z3.BoolVal(True)):
        raise Unsupported('symbolic integer used as a concrete index')
    raise PathEnd()


class FloatMeta(type):
    def __instancecheck__(cls, o):
        if cls is SReal:
            return type.__instancecheck__(cls, o)
        return type.__instancecheck__(cls, o)


class SReal(Sym):
    """symbolic real; also the class bound to the name `float` in loaded code"""

    def __new__(cls, v=0, *a):
        self = object.__new__(cls)
        if isinstance(v, z3.ExprRef):
            z = v
        elif isinstance(v, str):
            z = realval(float(v))
        elif isinstance(v, SReal):
            z = v._z
        elif isinstance(v, float) and (v != v or v in (INF, -INF)):
            if cls is SReal:
                return v
            raise Unsupported('non-finite')
        elif hasattr(v, '_vc_scalar'):
            return cls.__new__(cls, v._vc_scalar())
        elif v is None or not (isinstance(v, NUMK) or kind(v)):
            raise TypeError("float() argument must be a string or a real number, not '%s'"
                            % type(v).__name__)
        else:
            z = toreal(v)
        if z.sort() == z3.IntSort():
            z = z3.ToReal(z)
        object.__setattr__(self, '_z', z)
        return self

    def __init__(self, *a):
        pass

    real = property(lambda s: s)
    shape = ()
    ndim = 0
    size = 1

    def __bool__(self):
        return CTX.branch(self._z != 0)

    def __float__(self):
        c = const_of(self._z)
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic value in native code')

    def __int__(self):
        raise Unsupported('int() of a symbolic real in native code')


class SInt(Sym):
    def __new__(cls, v=0, *a):
        self = object.__new__(cls)
        if isinstance(v, z3.ExprRef):
            z = v
            if z.sort() == z3.RealSort():
                z = ftrunc(z)
        elif isinstance(v, str):
            z = z3.IntVal(int(v))
        elif isinstance(v, (SReal, float, Fraction)) or (kind(v) == 'r'):
            if isinstance(v, float) and (v != v or v in (INF, -INF)):
                raise OverflowError('cannot convert float infinity to integer')
            z = ftrunc(toreal(v))
        elif hasattr(v, '_vc_scalar'):
            return cls.__new__(cls, v._vc_scalar())
        else:
            if kind(v) is None:
                raise TypeError('int() argument must be a string or a number')
            z = toint(v)
        object.__setattr__(self, '_z', z)
        return self

    def __init__(self, *a):
        pass

    shape = ()
    ndim = 0
    size = 1

    def __bool__(self):
        return CTX.branch(self._z != 0)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())


def ftrunc(z):
    c = const_of(z)
    if c is not None:
        return z3.IntVal(int(c))
    return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))


class SBool(Sym):
    def __new__(cls, v=False):
        self = object.__new__(cls)
        object.__setattr__(self, '_z', v if isinstance(v, z3.ExprRef) else tobool(v))
        return self

    def __bool__(self):
        return CTX.branch(self._z)

    def __and__(self, o):
        return SBool(z3.And(self._z, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self._z, tobool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self._z))

    def __xor__(self, o):
        return SBool(z3.Xor(self._z, tobool(o)))
    __rxor__ = __xor__

    def all(self):
        return self

    def any(self):
        return self


def _mk(op):
    def f(self, o):
        if getattr(o, '_vc_array', False):
            return NotImplemented
        r = arith(op, self, o)
        return r

    def g(self, o):
        if getattr(o, '_vc_array', False):
            return NotImplemented
        return arith(op, o, self)
    return f, g


for _cls in (SReal, SInt, SBool):
    for _op, _n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv'),
                    ('//', 'floordiv'), ('%', 'mod'), ('**', 'pow')):
        _f, _g = _mk(_op)
        setattr(_cls, '__%s__' % _n, _f)
        setattr(_cls, '__r%s__' % _n, _g)
    for _op, _n in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'),
                    ('==', 'eq'), ('!=', 'ne')):
        def _c(self, o, _op=_op):
            if getattr(o, '_vc_array', False):
                return NotImplemented
            r = compare(_op, self, o)
            if r is NotImplemented and _op in ('==', '!='):
                return _op == '!='
            return r
        setattr(_cls, '__%s__' % _n, _c)
    _cls.__hash__ = Sym.__hash__
    if _cls is not SBool:
        _cls.__neg__ = lambda s: SReal(-s._z) if isinstance(s, SReal) else SInt(-s._z)
        _cls.__pos__ = lambda s: SReal(s._z) if isinstance(s, SReal) else SInt(s._z)
        _cls.__abs__ = lambda s: (SReal if isinstance(s, SReal) else SInt)(
            z3.If(s._z >= 0, s._z, -s._z))

SBool.__neg__ = lambda s: SInt(-toint(s))


def ite(c, a, b):
    """merge two values under a symbolic condition"""
    c = tobool(c)
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    ka, kb = kind(a), kind(b)
    if ka == 'b' and kb == 'b':
        return SBool(z3.If(c, tobool(a), tobool(b)))
    if ka in ('i', 'b') and kb in ('i', 'b'):
        return SInt(z3.If(c, toint(a), toint(b)))
    if ka and kb:
        return SReal(z3.If(c, toreal(a), toreal(b)))
    raise Unsupported('cannot merge %r and %r' % (type(a), type(b)))


def real(name, inp=True):
    z = CTX.fresh(name, z3.RealSort())
    if inp:
        CTX.inputs[str(z)] = z
    return SReal(z)


def integer(name, inp=True):
    z = CTX.fresh(name, z3.IntSort())
    if inp:
        CTX.inputs[str(z)] = z
    return SInt(z)


def boolean(name):
    z = CTX.fresh(name, z3.BoolSort())
    CTX.inputs[str(z)] = z
    return SBool(z)


# ------------------------------------------------------------ exploration
def explore(fn):
    """run fn() over all feasible paths (depth first, by re-execution).
    fn must build its state from scratch on every call."""
    ctx = CTX
    ctx.loop_cache = {}
    work = [[]]
    n = 0
    while work:
        trace = work.pop()
        ctx.reset_path(trace)
        n += 1
        ctx.npaths += 1
        if ctx.npaths > ctx.max_paths:
            raise Unsupported('more than %d paths' % ctx.max_paths)
        try:
            fn()
        except PathEnd:
            pass
        work.extend(ctx.pending)
    return n


class SubExplore:
    """nested exploration from the current state (state restored by caller)"""

    def __init__(self):
        c = CTX
        self.saved = (list(c.pc), c.trace, c.pos, c.pending, dict(c.ctr),
                      c.imprecise, c.key)

    def run(self, fn):
        c = CTX
        pc, trace, pos, pending, ctr, imp, key = self.saved
        # loops met in this exploration start from states of its own: analyses
        # of the same loops in other explorations are not reused
        c.nsub += 1
        uid = c.nsub
        work = [[]]
        results = []
        while work:
            t = work.pop()
            c.pc = list(pc)
            c.trace, c.pos, c.pending = t, 0, []
            c.ctr = dict(ctr)
            c.imprecise = imp
            c.key = key + ('sub', uid)
            c.npaths += 1
            if c.npaths > c.max_paths:
                raise Unsupported('more than %d paths' % c.max_paths)
            try:
                results.append(fn())
            except PathEnd:
                pass
            work.extend(c.pending)
        self.restore()
        return results

    def restore(self):
        c = CTX
        pc, trace, pos, pending, ctr, imp, key = self.saved
        c.pc, c.trace, c.pos, c.pending = list(pc), trace, pos, pending
        c.ctr, c.imprecise, c.key = dict(ctr), imp, key
