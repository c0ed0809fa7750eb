"""Mechanical front end for Python: load modules of the `inference` package
from the source tree under test, rewriting only

  * for/while statements inside functions -> calls of the loop rule with the
    body as a closure (break/continue/return become return codes),
  * list displays / list comprehensions  -> VList construction,
  * `s % x` with a literal string s      -> formatting that tolerates symbols,
  * bare `except:`                       -> `except Exception:`,
  * if/else chains are untouched (python evaluates them; a symbolic test forks)

and binding builtins float,int,len,range,min,max,... to symbolic-aware versions
and numpy/scipy/os/... to the models in shims.py.
"""
import ast, builtins, importlib, importlib.abc, importlib.machinery, os, sys, types
import z3
from . import core, loops
from .core import CTX, SReal, SInt, SBool, Sym, Unsupported, PathEnd, kind, ite, toreal, toint, tobool, const_of
from .arr import NArr, VList, SymSeq, SymRange, mkrange, cint, np_sum, asarr, unz, zint

REPO = os.environ.get('VC_REPO', '/repo')
PKG = os.path.join(REPO, 'package')


# -------------------------------------------------------------- builtins
def b_len(x):
    f = getattr(type(x), '_vc_len', None)
    if f:
        return x._vc_len()
    return builtins.len(x)


def _seq(args):
    if len(args) == 1:
        a = args[0]
        if isinstance(a, NArr):
            c = cint(a.shp[0])
            if c is None:
                return a
        return list(a)
    return list(args)


def b_min(*args, **kw):
    return _minmax(args, kw, False)


def b_max(*args, **kw):
    return _minmax(args, kw, True)


def _minmax(args, kw, mx):
    if kw:
        return (builtins.max if mx else builtins.min)(*args, **kw)
    if len(args) == 1 and isinstance(args[0], NArr):
        return args[0].max() if mx else args[0].min()
    if len(args) == 1 and isinstance(args[0], VList) and args[0].items is None:
        from .arr import np_array
        a = np_array(args[0])
        return a.max() if mx else a.min()
    v = _seq(args)
    if not v:
        raise ValueError('min()/max() arg is an empty sequence')
    if not any(isinstance(x, Sym) for x in v):
        return (builtins.max if mx else builtins.min)(v)
    r = v[0]
    for x in v[1:]:
        c = core.compare('>' if mx else '<', x, r)
        if c is NotImplemented:
            raise TypeError('not comparable')
        r = ite(c, x, r)
    return r


def b_sum(it, start=0):
    if isinstance(it, NArr):
        return np_sum(it) + start if not (isinstance(start, int) and start == 0) else np_sum(it)
    sp = loops.symbolic_space(it)
    if sp is not None:
        from .lemmas import mksum
        k0 = sp.item(z3.Int('ks#'))
        if kind(k0) is None:
            raise Unsupported('sum of objects')
        z = mksum(lambda j: toreal(sp.item(j)), 0, sp.n)
        return SReal(z) + start
    r = start
    for x in it:
        r = r + x
    return r


def b_zip(*its):
    sps = [loops.symbolic_space(i) for i in its]
    if any(s is not None for s in sps):
        items, ns = [], []
        for i, s in zip(its, sps):
            if s is not None:
                items.append(s.item)
                ns.append(s.n)
            else:
                l = list(i)
                vl = VList(l)
                items.append(lambda k, vl=vl: vl[SInt(zint(k))])
                ns.append(len(l))
        n = ns[0]
        for m in ns[1:]:
            if not zint(m).eq(zint(n)):
                n = ite(zint(m) < zint(n), m, n)
        return SymSeq(n, lambda k: tuple(f(k) for f in items), 'zip')
    return builtins.zip(*[list(i) if isinstance(i, (VList, NArr, SymSeq)) else i for i in its])


def b_enumerate(it, start=0):
    sp = loops.symbolic_space(it)
    if sp is not None:
        return SymSeq(sp.n, lambda k: (SInt(zint(k)) + start, sp.item(k)), 'enumerate')
    return builtins.enumerate(it, start)


def b_reversed(it):
    sp = loops.symbolic_space(it)
    if sp is not None:
        n = zint(sp.n)
        return SymSeq(sp.n, lambda k: sp.item(z3.simplify(n - 1 - zint(k))), 'rev')
    if isinstance(it, VList):
        return reversed(list(it))
    return builtins.reversed(it)


def b_isinstance(o, t):
    if isinstance(t, tuple):
        return any(b_isinstance(o, x) for x in t)
    if t is SReal or t is float:
        return isinstance(o, (float, SReal)) or (isinstance(o, Sym) and isinstance(o, SReal))
    if t is SInt or t is int:
        return isinstance(o, (int, SInt, SBool))
    if t is bool:
        return isinstance(o, (bool, SBool))
    if t is VList or t is list:
        return isinstance(o, (list, VList))
    return builtins.isinstance(o, t)


def b_print(*a, **k):
    pass


def b_abs(x):
    return builtins.abs(x)


def b_map(f, *its):
    if len(its) == 1:
        sp = loops.symbolic_space(its[0])
        if sp is not None:
            return SymSeq(sp.n, lambda k: f(sp.item(k)), 'map')
    return builtins.map(f, *its)


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def b_sorted(it, key=None, reverse=False):
    l = list(it)
    if any(isinstance(x, Sym) for x in l):
        # insertion sort by forking comparisons
        out = []
        for x in l:
            i = 0
            while i < len(out) and bool((key(out[i]) if key else out[i]) <= (key(x) if key else x)):
                i += 1
            out.insert(i, x)
        if reverse:
            out.reverse()
        return VList(out)
    return VList(builtins.sorted(l, key=key, reverse=reverse))


def b_round(x, n=None):
    if isinstance(x, SReal):
        # banker's rounding ignored at exact halves: nearest integer
        return SInt(z3.ToInt(x._z + z3.RealVal('1/2')))
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_divmod(a, b):
    return a // b, a % b


def b_pow(a, b):
    return a ** b


def b_tuple(it=()):
    if isinstance(it, VList) and it.items is None and cint(it.n) is None:
        return SymTuple(it)
    return builtins.tuple(it)


class SymTuple(VList):
    """tuple of symbolic length (not modifiable)"""

    def append(self, *a):
        raise AttributeError("'tuple' object has no attribute 'append'")
    remove = insert = pop = extend = sort = reverse = append

    def __setitem__(self, *a):
        raise TypeError("'tuple' object does not support item assignment")


FILES = {}      # model file system hook: set by shims


def b_open(*a, **k):
    f = FILES.get('open')
    if f is None:
        raise Unsupported('file access')
    return f(*a, **k)


def b_typ(x):
    if isinstance(x, SReal) and builtins.type(x) is SReal:
        return SReal
    return builtins.type(x)


class NameRef:
    """symbolic attribute name: subclasses say what getattr/setattr of it mean"""

    def get(self, o):
        raise Unsupported('attribute of a symbolic name')

    def set(self, o, v):
        raise Unsupported('attribute of a symbolic name')


def b_getattr(o, n, *d):
    if isinstance(n, NameRef):
        return n.get(o)
    return builtins.getattr(o, n, *d)


def b_setattr(o, n, v):
    if isinstance(n, NameRef):
        return n.set(o, v)
    return builtins.setattr(o, n, v)


class _IntMeta(type):
    pass


def make_builtins():
    d = dict(vars(builtins))
    d.update(len=b_len, min=b_min, max=b_max, sum=b_sum, zip=b_zip, enumerate=b_enumerate,
             reversed=b_reversed, isinstance=b_isinstance, print=b_print, map=b_map,
             any=b_any, all=b_all, sorted=b_sorted, round=b_round, divmod=b_divmod,
             range=mkrange, float=SReal, int=SInt, list=VList, open=b_open, pow=b_pow,
             getattr=b_getattr, setattr=b_setattr,
             __import__=vc_import)
    return d


def vc_import(name, globals=None, locals=None, fromlist=(), level=0):
    return builtins.__import__(name, globals, locals, fromlist, level)


# ------------------------------------------------------------ comprehension
def listcomp(fn, it, conds):
    """[fn(x) for x in it if conds]"""
    sp = loops.symbolic_space(it)
    if sp is None:
        out = []
        for x in it:
            if conds is None or conds(x):
                out.append(fn(x))
        return VList(out)
    if conds is not None:
        return filtered(fn, it, sp, conds)
    # element value on a generic index of the range, merged over its branches
    # (elements are taken to be computed without side effects)
    j = CTX.fresh('jc', z3.IntSort())

    def one():
        CTX.assume(z3.And(j >= 0, j < zint(sp.n)))
        base = len(CTX.pc)
        ctr = dict(CTX.ctr)
        try:
            v = fn(sp.item(j))
        except Exception as e:
            return CTX.pc[base:], None, e
        if kind(v) is not None and CTX.ctr != ctr:
            raise Unsupported('comprehension element needs fresh symbols')
        return CTX.pc[base:], v, None
    res = core.SubExplore().run(one)
    CTX.ctr['jc'] = CTX.ctr.get('jc', 0) + 1
    bad = [r for r in res if r[2] is not None]
    res = [r for r in res if r[2] is None]
    if bad:
        c = CTX.choose(len(bad) + (1 if res else 0))
        c = c if res else c + 1
        if c:
            CTX.assume(z3.And(j >= 0, j < zint(sp.n), *bad[c - 1][0]))
            raise bad[c - 1][2]
    if not res:
        raise PathEnd()
    ks = [kind(r[1]) for r in res]
    if None in ks:
        return VListObj(sp, fn)
    kk = 'r' if 'r' in ks else 'i' if 'i' in ks else 'b'
    f = toreal if kk == 'r' else toint if kk == 'i' else tobool
    z = f(res[-1][1])
    for pcs, v, _ in res[-2::-1]:
        z = z3.If(z3.And(*pcs) if pcs else z3.BoolVal(True), f(v), z)
    return VList.symbolic(sp.n, lambda i: z3.substitute(z, (j, i)), kk)


def filtered(fn, it, sp, conds):
    """[x for x in L if cond(x)] over a list without duplicates: the order-preserving
    sublist, characterised by its injection into L and its completeness"""
    from .heap import IdList, HObj
    j = CTX.fresh('jc', z3.IntSort())

    def one():
        CTX.assume(z3.And(j >= 0, j < zint(sp.n)))
        base = len(CTX.pc)
        x = sp.item(j)
        c = tobool(conds(x))
        y = fn(x)
        if not (isinstance(x, HObj) and isinstance(y, HObj) and y._id.eq(x._id)):
            raise Unsupported('filtered comprehension over symbolic sequence')
        return CTX.pc[base:], c, x
    res = core.SubExplore().run(one)
    CTX.ctr['jc'] = CTX.ctr.get('jc', 0) + 1
    if not res:
        return VList()
    P = z3.Or(*[z3.And(*pcs, c) for pcs, c, _ in res])
    x = res[0][2]
    item = lambda k: sp.item(k)._id
    src, dst = CTX.fresh_fn('fsrc', I_, I_), CTX.fresh_fn('fdst', I_, I_)
    m = CTX.fresh('nfilt', I_)
    a, b = z3.Int('a!f'), z3.Int('b!f')
    at = lambda k: z3.substitute(P, (j, k))
    n = zint(sp.n)
    CTX.assume(z3.And(m >= 0, m <= z3.If(n >= 0, n, 0)))
    CTX.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < m), z3.And(0 <= src(a), src(a) < n, at(src(a)), dst(src(a)) == a)),
                         patterns=[src(a)]))
    CTX.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n, at(a)), z3.And(0 <= dst(a), dst(a) < m, src(dst(a)) == a)),
                         patterns=[dst(a)]))
    CTX.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), src(a) < src(b)), patterns=[z3.MultiPattern(src(a), src(b))]))
    l = IdList()
    cls, heap = type(x), x._heap
    l.heap, l.cls = heap, cls
    l._sym(SInt(m), lambda i: item(src(i)), 'i', lambda z: cls(z, heap) if isinstance(x, NameRef) else cls(heap, z), lambda v: v._id)
    opos = it.pos if isinstance(it, IdList) else getattr(sp, 'pos', None)
    if opos is None:
        raise Unsupported('filtered comprehension over symbolic sequence')
    l.pos = lambda y: dst(opos(y))
    return l


I_ = z3.IntSort()


class VListObj(SymSeq):
    def __init__(self, sp, fn):
        SymSeq.__init__(self, sp.n, lambda k: fn(sp.item(k)))


def fstr(parts):
    if not any(getattr(x, '_vc_str', False) for x in parts):
        return ''.join(str(x) for x in parts)
    r = None
    for x in parts:
        x = x if getattr(x, '_vc_str', False) else str(x)
        r = x if r is None else r + x
    return r


def fmt(s, a):
    args = a if isinstance(a, tuple) else (a,)
    if any(getattr(x, '_vc_str', False) for x in args):
        import re
        parts, i = [], 0
        for t in re.split('(%%|%s)', s):
            if t == '%s':
                parts.append(args[i])
                i += 1
            elif t == '%%':
                parts.append('%')
            elif '%' in t:
                raise Unsupported('format of a symbolic string')
            elif t:
                parts.append(t)
        if i != len(args):
            raise TypeError('not all arguments converted during string formatting')
        return fstr(parts)
    try:
        return s % a
    except (Unsupported, TypeError):
        return s


def mklist(l):
    v = VList()
    v.items = l
    return v


# ---------------------------------------------------------------- transform
class Names(ast.NodeVisitor):
    """names bound in a function body (not entering nested functions)"""

    def __init__(self):
        self.bound, self.globals, self.nonlocals = set(), set(), set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.bound.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_ListComp(self, n):
        # comprehension targets are local to the comprehension
        for g in n.generators:
            self.visit(g.iter)
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def has_yield(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
    return False


def uses_super(node):
    return any(isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals') for x in ast.walk(node))


def expr(s):
    return ast.parse(s, mode='eval').body


class BodyRewrite(ast.NodeTransformer):
    """break/continue/return inside an extracted loop body"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n
    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_For(self, n):      # untransformed inner loops keep break/continue
        self.depth += 1
        n.body = [self.visit(x) for x in n.body]
        self.depth -= 1
        n.orelse = [self.visit(x) for x in n.orelse]
        return n
    visit_While = visit_For

    def visit_Break(self, n):
        return n if self.depth else ast.copy_location(ast.Return(expr('__vc__.BREAK')), n)

    def visit_Continue(self, n):
        return n if self.depth else ast.copy_location(ast.Return(expr('__vc__.NEXT')), n)

    def visit_Return(self, n):
        if getattr(n, '_vc', False):
            return n
        v = n.value or ast.Constant(None)
        r = ast.Return(ast.Call(expr('__vc__.RET'), [v], []))
        r._vc = True
        return ast.copy_location(r, n)


def own_yields(fn):
    out = []

    class Vis(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            pass
        visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

        def visit_Yield(self, n):
            out.append(n)
            self.generic_visit(n)

        def visit_YieldFrom(self, n):
            out.append(n)
    v = Vis()
    for s in fn.body:
        v.visit(s)
    return out


def make_eager(fn, ys):
    """generator -> function returning the sequence it would yield (laziness
    is dropped; only statement-level yields are in the subset)"""
    ar = set()
    for y in ys:
        if isinstance(y, ast.YieldFrom):
            return fn
        ar.add(len(y.value.elts) if isinstance(y.value, ast.Tuple) else 0)
    if len(ar) != 1:
        return fn
    m = ar.pop()

    class Rw(ast.NodeTransformer):
        bad = False

        def visit_FunctionDef(self, n):
            return n
        visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Yield):
                v = n.value.value or ast.Constant(None)
                if m:
                    out = []
                    for i, e in enumerate(v.elts):
                        out.append(ast.Expr(ast.Call(expr('__vc_out[%d].append' % i), [e], [])))
                    return [ast.copy_location(o, n) for o in out]
                return ast.copy_location(ast.Expr(ast.Call(expr('__vc_out.append'), [v], [])), n)
            return n

        def visit_Yield(self, n):
            self.bad = True
            return n

        def visit_Return(self, n):
            return ast.copy_location(ast.Return(expr('__vc_out')), n)
    rw = Rw()
    body = []
    for s in fn.body:
        r = rw.visit(s)
        body.extend(r if isinstance(r, list) else [r])
    if rw.bad:
        return fn
    init = '__vc_out = __vc__.mklist(list(()))' if not m else \
        '__vc_out = __vc__.Zipped(%d)' % m
    fn.body = [ast.copy_location(ast.parse(init).body[0], fn)] + body + \
        [ast.copy_location(ast.Return(expr('__vc_out')), fn)]
    ast.fix_missing_locations(fn)
    return fn


class Zipped:
    """sequence of m-tuples kept as m parallel lists"""
    _vc_state = True

    def __init__(self, m):
        self.comps = tuple(VList() for _ in range(m))

    def __getitem__(self, i):
        return self.comps[i]

    def _vc_len(self):
        return self.comps[0]._vc_len()

    def _vc_space(self):
        n = self._vc_len()
        if cint(n) is not None:
            return None
        return SymSeq(n, lambda k: tuple(c[SInt(zint(k))] for c in self.comps), 'zipped')

    def __iter__(self):
        return iter(builtins.zip(*[list(c) for c in self.comps]))


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []       # function infos
        self.counter = {}

    # functions
    def visit_FunctionDef(self, n):
        ys = own_yields(n)
        if ys:
            n = make_eager(n, ys)
        nm = Names()
        for s in n.body:
            nm.visit(s)
        a = n.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                params.add(x.arg)
        qual = '.'.join([f['name'] for f in self.stack] + [n.name])
        info = dict(name=n.name, qual=qual, bound=(nm.bound | params) - nm.globals - nm.nonlocals,
                    globals=nm.globals, nonlocals=nm.nonlocals, params=params, loops=0, isfn=True,
                    nl=False)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.stack.append(info)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.stack.pop()
        if info['nl']:
            locs = sorted(info['bound'] - params)
            if locs:
                dummy = ast.parse('if 0:\n' + '\n'.join('    %s = None' % x for x in locs)).body
                i = 0
                if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    i = 1
                body[i:i] = dummy
        n.body = body
        return n

    def visit_ClassDef(self, n):
        self.stack.append(dict(name=n.name, isfn=False))
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def infn(self):
        return bool(self.stack) and self.stack[-1].get('isfn')

    # loops
    def _loop(self, n):
        info = self.stack[-1] if self.infn() else None
        if info is None or has_yield(n) or uses_super(n):
            self.generic_visit(n)
            return n
        info['loops'] += 1
        info['nl'] = True
        qual = '.'.join(f['name'] for f in self.stack)
        uid = '%d_%d' % (len(self.stack), info['loops'])
        lid = '%s:%s:L%d' % (self.mod, qual, info['loops'])
        nm = Names()
        if isinstance(n, ast.For):
            nm.visit(n.target)
        for s in n.body:
            nm.visit(s)
        if isinstance(n, ast.While):
            nm.visit(n.test)
        assigned = sorted(nm.bound - info['globals'] - info['nonlocals'])
        allvars = sorted(x for x in info['bound'])
        outer_nl = sorted(info['nonlocals'] & nm.bound)
        globs = sorted(info['globals'] & nm.bound)
        # inner
        if isinstance(n, ast.For):
            n.iter = self.visit(n.iter)
        else:
            n.test = self.visit(n.test)
        inner = []
        for s in n.body:
            r = self.visit(s)
            inner.extend(r if isinstance(r, list) else [r])
        rw = BodyRewrite()
        inner = [rw.visit(s) for s in inner]
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse.extend(r if isinstance(r, list) else [r])
        decl = []
        if assigned or outer_nl:
            decl.append(ast.Nonlocal(sorted(set(assigned) | set(outer_nl))))
        if globs:
            decl.append(ast.Global(globs))
        bname = '__vc_body_' + uid
        item = '__vc_item'
        pre = []
        if isinstance(n, ast.For):
            pre = [ast.Assign([n.target], ast.Name(item, ast.Load()))]
        fdef = ast.FunctionDef(
            name=bname, args=ast.arguments([], [ast.arg(item)], None, [], [], None, []),
            body=decl + pre + inner + [ast.Return(expr('__vc__.NEXT'))],
            decorator_list=[], returns=None, type_params=[])
        get_src = 'def __vc_get_%s():\n    __vc_d = {}\n' % uid
        for v in allvars:
            get_src += '    try: __vc_d[%r] = %s\n    except NameError: pass\n' % (v, v)
        get_src += '    return __vc_d\n'
        set_src = 'def __vc_set_%s(__vc_d):\n' % uid
        if assigned:
            set_src += '    nonlocal %s\n' % ', '.join(assigned)
        for v in assigned:
            set_src += ('    if %r in __vc_d: %s = __vc_d[%r]\n'
                        '    else:\n        try: del %s\n        except NameError: pass\n' % (v, v, v, v))
        set_src += '    return None\n'
        stmts = [fdef] + ast.parse(get_src).body + ast.parse(set_src).body
        rn = '__vc_r_' + uid
        if isinstance(n, ast.For):
            call = expr('__vc__.loop_for(%r, None, %s, __vc_get_%s, __vc_set_%s)' % (lid, bname, uid, uid))
            call.args[1] = n.iter
        else:
            const = isinstance(n.test, ast.Constant)
            lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.test)
            call = expr('__vc__.loop_while(%r, %r, None, %s, __vc_get_%s, __vc_set_%s)'
                        % (lid, const, bname, uid, uid))
            call.args[2] = lam
        stmts.append(ast.Assign([ast.Name(rn, ast.Store())], call))
        ret = ast.parse('if %s.__class__ is __vc__.RET:\n    return %s.value\n' % (rn, rn)).body
        # a return inside a *nested extracted* body must itself be rewritten by
        # the enclosing BodyRewrite, so leave it as a plain Return here
        stmts += ret
        if orelse:
            stmts.append(ast.If(ast.Compare(ast.Name(rn, ast.Load()), [ast.Is()],
                                            [expr('__vc__.NEXT')]), orelse, []))
        for s in stmts:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return stmts

    visit_For = _loop
    visit_While = _loop

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infn():
            return ast.copy_location(ast.Call(expr('__vc__.mklist'), [n], []), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys and self.infn():
            return ast.copy_location(expr('__vc__.mkdict()'), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == 'object' and n.attr == '__setattr__':
            return ast.copy_location(expr('__vc__.obj_setattr'), n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and self.infn() and not has_yield(n):
            g = n.generators[0]
            if isinstance(g.target, ast.Name):
                arg = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
                fn = ast.Lambda(arg, n.elt)
                cond = ast.Constant(None)
                if g.ifs:
                    test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
                    cond = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), test)
                return ast.copy_location(ast.Call(expr('__vc__.listcomp'), [fn, g.iter, cond], []), n)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                ids = [e.id for e in g.target.elts]
                inner = ast.Lambda(ast.arguments([], [ast.arg(i) for i in ids], None, [], [], None, []), n.elt)
                fn = expr('lambda __vc_t: None(*__vc_t)')
                fn.body.func = inner
                cond = ast.Constant(None)
                if g.ifs:
                    test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
                    cond = expr('lambda __vc_t: None(*__vc_t)')
                    cond.body.func = ast.Lambda(ast.arguments([], [ast.arg(i) for i in ids], None, [], [], None, []), test)
                return ast.copy_location(ast.Call(expr('__vc__.listcomp'), [fn, g.iter, cond], []), n)
        if self.infn():
            return ast.copy_location(ast.Call(expr('__vc__.mklist'), [n], []), n)
        return n

    def visit_GeneratorExp(self, n):
        r = self.visit_ListComp(ast.copy_location(ast.ListComp(n.elt, n.generators), n))
        return r if self.infn() else n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(expr('__vc__.fmt'), [n.left, n.right], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.infn() and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and \
                not isinstance(n.comparators[0], ast.Constant):
            f = '__vc__.is_' if isinstance(n.ops[0], ast.Is) else '__vc__.isnot_'
            return ast.copy_location(ast.Call(expr(f), [n.left, n.comparators[0]], []), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if not self.infn():
            return n
        elts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1:
                elts.append(v.value)
            elif isinstance(v, ast.FormattedValue):
                elts.append(ast.JoinedStr([v]))
            else:
                elts.append(v)
        return ast.copy_location(ast.Call(expr('__vc__.fstr'), [ast.Tuple(elts, ast.Load())], []), n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.copy_location(ast.Name('Exception', ast.Load()), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1 and not n.keywords:
            n.func = expr('__vc__.typ')
        if isinstance(n.func, ast.Name) and n.func.id == 'tuple' and len(n.args) == 1 and not n.keywords:
            n.func = expr('__vc__.mktuple')
        if isinstance(n.func, ast.Name) and n.func.id == 'dict' and len(n.args) <= 1 and not n.keywords:
            n.func = expr('__vc__.mkdict')
        if self.infn() and sum(k.arg is None for k in n.keywords) == 1:
            star = [k.value for k in n.keywords if k.arg is None][0]
            kw = [k for k in n.keywords if k.arg is not None]
            return ast.copy_location(ast.Call(expr('__vc__.callkw'), [
                n.func, ast.Tuple(n.args, ast.Load()), ast.Call(ast.Name('dict', ast.Load()), [], kw), star], []), n)
        return n


def is_(a, b):
    f = getattr(type(a), '_is', None)
    return f(a, b) if f else a is b


def isnot_(a, b):
    r = is_(a, b)
    return SBool(z3.Not(r._z)) if isinstance(r, SBool) else not r


def _sd():
    from . import sdict
    return sdict


class VC:
    is_, isnot_ = staticmethod(is_), staticmethod(isnot_)
    mktuple = staticmethod(b_tuple)
    NEXT, BREAK, RET = loops.NEXT, loops.BREAK, loops.RET
    loop_for = staticmethod(loops.loop_for)
    loop_while = staticmethod(loops.loop_while)
    listcomp = staticmethod(listcomp)
    mklist = staticmethod(mklist)
    fmt = staticmethod(fmt)
    fstr = staticmethod(fstr)
    typ = staticmethod(b_typ)
    mkdict = staticmethod(lambda *a: _sd().mkdict(*a))
    obj_setattr = staticmethod(lambda *a: _sd().obj_setattr(*a))
    callkw = staticmethod(lambda *a: _sd().callkw(*a))
    Zipped = Zipped


# ------------------------------------------------------------------- import
_code = {}


def transform_source(src, modname, path):
    # (the transformation depends on the text alone: done once per process)
    if (src, modname, path) not in _code:
        _code[src, modname, path] = _transform(src, modname, path)
    return _code[src, modname, path]


def _transform(src, modname, path):
    tree = ast.parse(src, path)
    # drop `if __name__ == '__main__'` is harmless (name differs)
    tree = Transform(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class ExtStub(types.ModuleType):
    """compiled extension not given a contract by the task: calls are undecided"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported('call of the compiled routine %s' % n)
        return f


# dotted extension module name -> factory
EXT = {n: (lambda n=n: ExtStub(n)) for n in
       ('inference.deriv._obsinfo', 'inference.count._cbmlike', 'inference.grid._gridquad',
        'inference.integrate._adapt', 'inference.integrate._dcuhre', 'inference.gauss.vba')}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name in EXT:
            return importlib.machinery.ModuleSpec(name, self)
        if name == 'inference' or name.startswith('inference.'):
            rel = os.path.join(PKG, *name.split('.'))
            if os.path.isdir(rel):
                f = os.path.join(rel, '__init__.py')
                sp = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
                sp.submodule_search_locations = [rel]
                sp.has_location = True
                return sp
            f = rel + '.py'
            if os.path.exists(f):
                sp = importlib.machinery.ModuleSpec(name, self, origin=f)
                sp.has_location = True
                return sp
        return None

    def create_module(self, spec):
        if spec.name in EXT:
            return EXT[spec.name]()
        return None

    def exec_module(self, module):
        if module.__name__ in EXT:
            return
        path = module.__spec__.origin
        # package __init__ files that only wire submodules are executed too
        src = open(path).read()
        code = transform_source(src, module.__name__, path)
        module.__dict__['__builtins__'] = make_builtins()
        module.__dict__['__vc__'] = VC
        exec(code, module.__dict__)


_installed = False


def install():
    global _installed
    if _installed:
        return
    from . import shims
    shims.install()
    sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True
    _installed = True


def fresh_import(name):
    """(re)load a module of the package and everything below it"""
    install()
    for m in [m for m in sys.modules if m == 'inference' or m.startswith('inference.')]:
        del sys.modules[m]
    return importlib.import_module(name)


def load_text(src, name='vctext', extra=None):
    """functions of a piece of source, through the same transformation"""
    install()
    code = transform_source(src, name, '<%s>' % name)
    ns = dict(extra or {}, __builtins__=make_builtins(), __vc__=VC, __name__=name)
    exec(code, ns)
    return ns
