"""Mechanical translation of the FORTRAN 77 subset used by the package's own
routines into Python text, redone from the source on every run; the text then
goes through the same loop rule and symbolic execution as the Python code.

What the translation keeps: every statement except those listed below, statement
order, declared types (integer division and assignment of a real to an integer
truncate; constants without a d exponent are rounded to single precision),
array bounds (indices are shifted to 0-based), saved variables (module state),
backward jumps (as `while True` loops) and call by reference for arrays and for
the scalar arguments a routine assigns.
What it drops: comments, print/write/pause statements, `save`/`external`
declarations as such, and double-precision rounding (reals are mathematical).
Anything else raises Unsupported."""
import re, struct

try:
    from .core import Unsupported
except ImportError:                      # used without the engine (native runs)
    class Unsupported(Exception):
        pass


def lines(src):
    """logical lines: (label, text, line number)"""
    out = []
    for no, raw in enumerate(src.split('\n'), 1):
        if not raw.strip() or raw[0] in 'cC*!':
            continue
        if '\t' in raw[:6]:
            a, b = raw.split('\t', 1)
            if b[:1].isdigit() and b[0] != '0' and not a.strip():
                lab, cont, body = '', True, b[1:]
            else:
                lab, cont, body = a.strip(), False, b
        else:
            raw = raw.rstrip('\n')
            lab, cont, body = raw[:5].strip(), len(raw) > 5 and raw[5] not in ' 0', raw[6:72]
        q = None                          # trailing ! comments
        for i, ch in enumerate(body):
            if q:
                q = None if ch == q else q
            elif ch in '\'"':
                q = ch
            elif ch == '!':
                body = body[:i]
                break
        body = body.strip()
        if not body and not lab:
            continue
        if cont:
            l, t, n = out[-1]
            out[-1] = (l, t + ' ' + body, n)
        else:
            out.append((lab, body, no))
    return [(l, t if "'" in t or '"' in t else t.lower(), n) for l, t, n in out]


TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[de][+-]?\d+)(?![a-z_])|\d+\.\d*(?![a-z])|\.\d+(?:[de][+-]?\d+)?|\d+(?:\.(?!and\.|or\.|eq|ne|gt|ge|lt|le))?)"
                 r"|([a-z_]\w*)|(\.(?:and|or|not|gt|ge|lt|le|eq|ne|true|false|eqv|neqv)\.)|(\*\*|<=|>=|==|/=|[-+*/(),:<>=]))", re.I)


def tokens(s):
    s = s.rstrip()
    i, out = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('Fortran text %r' % s[i:i + 20])
        num, name, dot, op = m.groups()
        out.append(('n', num.lower()) if num else ('v', name.lower()) if name else ('o', (dot or op).lower()))
        i = m.end()
    return out


def number(t):
    if re.fullmatch(r'\d+', t):
        return t, 'i'
    if 'd' in t:
        return repr(float(t.replace('d', 'e'))), 'r'
    return repr(struct.unpack('f', struct.pack('f', float(t)))[0]), 'r'


REL = {'.gt.': '>', '.ge.': '>=', '.lt.': '<', '.le.': '<=', '.eq.': '==', '.ne.': '!=', '>': '>', '>=': '>=', '<': '<', '<=': '<=', '==': '==', '/=': '!='}
INTRINSIC = {'sqrt': 'sqrt', 'log': 'log', 'exp': 'exp', 'dsqrt': 'sqrt', 'dlog': 'log', 'dexp': 'exp', 'dble': 'f_real', 'real': 'f_real', 'float': 'f_real',
             'abs': 'abs', 'dabs': 'abs', 'iabs': 'abs', 'max': 'max', 'min': 'min', 'dmax1': 'max', 'dmin1': 'min', 'max0': 'max', 'min0': 'min', 'amax1': 'max', 'amin1': 'min',
             'int': 'f_int', 'idint': 'f_int', 'nint': 'f_nint', 'mod': 'f_mod', 'sign': 'f_sign'}
RESERVED = {'lambda', 'in', 'is', 'def', 'del', 'as', 'if', 'or', 'and', 'not', 'sum', 'max', 'min', 'abs', 'range', 'log', 'exp', 'sqrt', 'pass', 'from', 'len'}


class Unit:
    def __init__(self, kind, name, args):
        self.kind, self.name, self.args = kind, name, args
        self.types, self.dims, self.saved, self.consts, self.data = {}, {}, set(), {}, []
        self.externals, self.stmts = set(), []
        self.assigned = set()

    def type(self, v):
        return self.types.get(v) or ('i' if v[0] in 'ijklmn' else 'r')


def units(src):
    us, cur = [], None
    for lab, t, no in lines(src):
        m = re.match(r'(?:(real\*8|double precision|integer|real|logical)\s+)?(subroutine|function)\s+(\w+)\s*(?:\((.*)\))?$', t)
        if m and cur is None:
            cur = Unit(m.group(2), m.group(3), [a.strip() for a in (m.group(4) or '').split(',') if a.strip()])
            if m.group(1):
                cur.types[cur.name] = {'i': 'i', 'l': 'l'}.get(m.group(1)[0], 'r')
            continue
        if cur is None:
            raise Unsupported('Fortran outside a routine: %r' % t)
        if t == 'end':
            if lab:
                cur.stmts.append((lab, 'continue', no))
            us.append(cur)
            cur = None
            continue
        cur.stmts.append((lab, t, no))
    if cur:
        raise Unsupported('routine without end')
    return us


def split(s):
    """at commas outside parentheses"""
    out, d, cur = [], 0, ''
    for ch in s:
        d += (ch == '(') - (ch == ')')
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


class Expr:
    def __init__(self, tr, toks):
        self.tr, self.t, self.i = tr, toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, v=None):
        k = self.peek()
        if v is not None and k[1] != v:
            raise Unsupported('Fortran: %r expected in %r' % (v, self.t))
        self.i += 1
        return k

    def full(self):
        r = self.lor()
        if self.i != len(self.t):
            raise Unsupported('Fortran expression %r' % (self.t,))
        return r

    def lor(self):
        a = self.land()
        while self.peek()[1] == '.or.':
            self.take()
            a = ('(%s or %s)' % (a[0], self.land()[0]), 'l')
        return a

    def land(self):
        a = self.lnot()
        while self.peek()[1] == '.and.':
            self.take()
            a = ('(%s and %s)' % (a[0], self.lnot()[0]), 'l')
        return a

    def lnot(self):
        if self.peek()[1] == '.not.':
            self.take()
            return '(not %s)' % self.lnot()[0], 'l'
        return self.rel()

    def rel(self):
        a = self.add()
        if self.peek()[0] == 'o' and self.peek()[1] in REL:
            o = REL[self.take()[1]]
            return '(%s %s %s)' % (a[0], o, self.add()[0]), 'l'
        return a

    def add(self):
        if self.peek()[1] in ('-', '+') and self.peek()[0] == 'o':
            o = self.take()[1]
            b = self.mul()
            a = (('(-%s)' if o == '-' else '%s') % b[0], b[1])
        else:
            a = self.mul()
        while self.peek()[0] == 'o' and self.peek()[1] in ('+', '-'):
            o = self.take()[1]
            b = self.mul()
            a = ('(%s %s %s)' % (a[0], o, b[0]), 'i' if a[1] == b[1] == 'i' else 'r')
        return a

    def mul(self):
        a = self.pow()
        while self.peek()[0] == 'o' and self.peek()[1] in ('*', '/'):
            o = self.take()[1]
            b = self.pow()
            if o == '/' and a[1] == b[1] == 'i':
                a = ('f_idiv(%s, %s)' % (a[0], b[0]), 'i')
            else:
                a = ('(%s %s %s)' % (a[0], o, b[0]), 'i' if a[1] == b[1] == 'i' else 'r')
        return a

    def pow(self):
        a = self.atom()
        if self.peek()[1] == '**':
            self.take()
            if self.peek()[1] == '-':
                self.take()
                b = self.pow()
                b = ('(-%s)' % b[0], b[1])
            else:
                b = self.pow()
            if b[1] != 'i':
                return 'f_rpow(%s, %s)' % (a[0], b[0]), 'r'
            return 'f_pow(%s, %s)' % (a[0], b[0]), a[1]
        return a

    def args(self):
        self.take('(')
        out = []
        while True:
            if self.peek()[1] == ')':
                break
            out.append(self.lor())
            if self.peek()[1] == ',':
                self.take()
            else:
                break
        self.take(')')
        return out

    def atom(self):
        k, v = self.take()
        if k == 'n':
            return number(v)
        if v == '(':
            a = self.lor()
            self.take(')')
            return '(%s)' % a[0], a[1]
        if v in ('.true.', '.false.'):
            return ('True' if v == '.true.' else 'False'), 'l'
        if k != 'v':
            raise Unsupported('Fortran expression %r' % (self.t,))
        u = self.tr.u
        if self.peek()[1] == '(':
            if v in u.dims:
                return self.tr.elem(v, self.args()), u.type(v)
            a = self.args()
            if v in u.externals or v in self.tr.units:
                if v in self.tr.units and self.tr.outs(self.tr.units[v]):
                    raise Unsupported('function with output arguments in an expression')
                ty = self.tr.units[v].type(v) if v in self.tr.units and v not in u.externals else u.type(v)
                return '%s(%s)' % (self.tr.fname(v), ', '.join(x for x, _ in a)), ty
            if v in INTRINSIC:
                f = INTRINSIC[v]
                ty = 'i' if f in ('f_int', 'f_nint') else 'r' if f in ('sqrt', 'log', 'exp', 'f_real') else \
                    'i' if all(t == 'i' for _, t in a) else 'r'
                return '%s(%s)' % (f, ', '.join(x for x, _ in a)), ty
            raise Unsupported('Fortran function %r' % v)
        if v in u.consts:
            return u.consts[v], u.type(v)
        return self.tr.var(v), u.type(v)


class Translate:
    def __init__(self, src, names=None):
        us = units(src)
        self.units = {u.name: u for u in us}
        self.out, self.ind = [], 0
        for u in us:
            self.u = u
            self.declare(u)
            for lab, t, no in u.body:
                m = re.match(r'(?:if\s*\(.*\)\s*)?(\w+)\s*(?:\(.*?\))?\s*=(?!=)', t)
                if m and not t.startswith('do '):
                    u.assigned.add(m.group(1))
                m = re.match(r'if\s*\(.*\)\s*(\w+)\s*=(?!=)', t)
                if m:
                    u.assigned.add(m.group(1))
        # scalars a callee assigns are assigned here too
        for _ in us:
            for u in us:
                for lab, t, no in u.body:
                    for m in re.finditer(r'(\w+)\s*\(', t):
                        c = self.units.get(m.group(1))
                        if c and c is not u:
                            d, e = 0, m.end()
                            s = t[m.end() - 1:]
                            for k, ch in enumerate(s):
                                d += (ch == '(') - (ch == ')')
                                if d == 0:
                                    break
                            a = split(s[1:k])
                            for x, y in zip(a, c.args):
                                if y in c.assigned and y not in c.dims and re.fullmatch(r'\w+', x):
                                    u.assigned.add(x)
        self.emit('from numpy import exp, log, sqrt, zeros')
        for u in us:
            self.u = u
            self.unit(u)
        self.text = '\n'.join(self.out) + '\n'

    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def fname(self, v):
        return v

    def var(self, v):
        if v in self.u.saved:
            return 'saved_.%s' % v
        if v == self.u.name:
            return v + '_result'
        return v + '_' if v in RESERVED else v

    def outs(self, u):
        return [a for a in u.args if a in u.assigned and a not in u.dims]

    def expr(self, s):
        return Expr(self, tokens(s)).full()

    def elem(self, v, args):
        ds = self.u.dims[v]
        if len(args) != len(ds):
            raise Unsupported('array reference')
        ix = []
        for (x, t), (lb, ub) in zip(args, ds):
            ix.append('f_ix(%s)' % (x if lb == '0' else '%s - %s' % (x, lb)))
        return '%s[%s]' % (self.var(v), ', '.join(ix))

    def declare(self, u):
        u.body = []
        for lab, t, no in u.stmts:
            m = re.match(r'(real\*8|double precision|integer|real|logical|dimension|external|save|data|parameter|implicit)\b\s*(.*)$', t)
            if not m:
                u.body.append((lab, t, no))
                continue
            k, r = m.groups()
            if k == 'external':
                u.externals.update(split(r))
            elif k == 'save':
                u.saved.update(split(r))
            elif k == 'implicit':
                pass
            elif k == 'parameter':
                for e in split(r.strip()[1:-1]):
                    n, v = e.split('=')
                    x, ty = self.expr(v)
                    u.consts[n.strip()] = '(%s)' % x
            elif k == 'data':
                while r:
                    m = re.match(r'([^/]*)/([^/]*)/\s*,?\s*(.*)$', r)
                    u.data.append((split(m.group(1)), split(m.group(2))))
                    for n in u.data[-1][0]:
                        u.saved.add(re.match(r'\w+', n).group())
                    r = m.group(3)
            else:
                if k == 'real':
                    raise Unsupported('single precision variables')
                for e in split(r):
                    m = re.match(r'(\w+)\s*(?:\((.*)\))?$', e)
                    n = m.group(1)
                    if k != 'dimension':
                        u.types[n] = {'i': 'i', 'l': 'l'}.get(k[0], 'r')
                    if m.group(2):
                        u.dims[n] = [tuple(d.split(':')) if ':' in d else ('1', d) for d in split(m.group(2))]

    def unit(self, u):
        if u.saved:
            self.emit('_save_%s = f_saved()' % u.name)
            for v in sorted(u.saved):
                if v in u.dims:
                    self.emit('_save_%s.%s = zeros(%s, %s)' % (u.name, v, ', '.join('%s' % (int(ub) - int(lb) + 1) for lb, ub in u.dims[v]), 'float' if u.type(v) == 'r' else 'int'))
            for names, vals in u.data:
                vals = list(vals)
                for n in names:
                    m = re.match(r'(\w+)\s*(?:\((.*)\))?$', n)
                    v = m.group(1)
                    if m.group(2):
                        self.emit('_save_%s.%s[%s - %s] = %s' % (u.name, v, m.group(2), u.dims[v][0][0], self.const(u, v, vals.pop(0))))
                    elif v in u.dims:
                        for k in range(int(u.dims[v][0][1]) - int(u.dims[v][0][0]) + 1):
                            self.emit('_save_%s.%s[%d] = %s' % (u.name, v, k, self.const(u, v, vals.pop(0))))
                    else:
                        self.emit('_save_%s.%s = %s' % (u.name, v, self.const(u, v, vals.pop(0))))
        self.emit('def %s(%s):' % (u.name, ', '.join(self.var(a) for a in u.args)))
        self.ind += 1
        if u.saved:
            self.emit('saved_ = _save_%s' % u.name)
        if u.kind == 'function':
            self.emit('%s = f_undef(%r)' % (self.var(u.name), u.type(u.name)))
        for v in u.dims:
            if v not in u.args and v not in u.saved:
                self.emit('%s = f_local((%s,), %r)' % (self.var(v), ', '.join('%s - %s + 1' % (self.expr(ub)[0], self.expr(lb)[0]) for lb, ub in u.dims[v]), u.type(v)))
        self.jumps = set()
        self.set = set(u.args) | u.saved | set(u.consts)
        body = self.parse(u.body)
        self.exits = set()                # labels from which only the end of the unit follows
        for st in reversed(body):
            if st[0] != 'stmt' or st[2] not in ('continue', 'return'):
                break
            self.exits.add(st[1])
        self.outside = {w for ins, t in self.flat(body) for w in re.findall(r'[a-z_]\w*', t) if w not in ins}
        self.block(body)
        if not self.out[-1].startswith('    return'):
            self.ret()
        self.ind -= 1
        self.emit('')

    def const(self, u, v, t):
        x, ty = self.expr(t)
        return 'f_real(%s)' % x if u.type(v) == 'r' and ty == 'i' else x

    def ret(self):
        u = self.u
        r = ([self.var(u.name)] if u.kind == 'function' else []) + [self.var(a) for a in self.outs(u)]
        self.emit('return %s' % (r[0] if len(r) == 1 else '(%s)' % ', '.join(r)) if r else 'return')

    # ------------------------------------------------------ block structure
    def parse(self, body):
        """nested statements: ('stmt', label, text) / ('do', label, var, bounds, body) /
        ('if', label, [(cond, body)...])"""
        self.pos, self.b = 0, body
        r, end = self.seq(lambda t: False, set())
        if self.pos != len(body):
            raise Unsupported('block structure')
        return r

    def seq(self, stop, dolabels):
        out = []
        while self.pos < len(self.b):
            lab, t, no = self.b[self.pos]
            if stop(t):
                return out, t
            self.pos += 1
            m = re.match(r'do\s+(?:(\d+)\s*,?\s*)?(\w+)\s*=\s*(.*)$', t)
            if m:
                dl = m.group(1)
                if dl:
                    inner, _ = self.labelled(dl, stop)
                else:
                    inner, e = self.seq(lambda t: t in ('enddo', 'end do'), set())
                    self.pos += 1
                out.append(('do', lab, m.group(2), split(m.group(3)), inner, dl))
                if dl and self.ended == 'shared':
                    raise Unsupported('shared loop end')
                continue
            m = re.match(r'do\s+while\s*\((.*)\)$', t)
            if m:
                inner, e = self.seq(lambda t: t in ('enddo', 'end do'), set())
                self.pos += 1
                out.append(('while', lab, m.group(1), None, inner))
                continue
            m = re.match(r'if\s*\((.*)\)\s*then$', t)
            if m:
                arms, cond = [], m.group(1)
                while True:
                    inner, e = self.seq(lambda t: re.match(r'(else|end\s*if)', t) is not None, set())
                    arms.append((cond, inner))
                    self.pos += 1
                    if e is None:
                        raise Unsupported('if without endif')
                    if re.match(r'end\s*if', e):
                        break
                    m2 = re.match(r'else\s*if\s*\((.*)\)\s*then$', e)
                    cond = m2.group(1) if m2 else None
                out.append(('if', lab, arms))
                continue
            out.append(('stmt', lab, t))
        return out, None

    def labelled(self, dl, stop):
        start = self.pos
        # find the terminal statement of the loop at this level
        out = []
        self.ended = None
        end = next((k for k in range(start, len(self.b)) if self.b[k][0] == dl), None)
        if end is None:
            raise Unsupported('loop end %s' % dl)
        sub = self.b[start:end]
        lab, t, no = self.b[end]
        save = self.b
        self.b, self.pos = sub, 0
        inner, e = self.seq(lambda t: False, set())
        if self.pos != len(sub):
            raise Unsupported('loop structure')
        self.b, self.pos = save, end + 1
        if t != 'continue':
            inner.append(('stmt', '', t))
        return inner, None

    def gotos(self, st):
        """labels jumped to within a statement, and whether inside a loop"""
        if st[0] == 'stmt':
            m = re.match(r'(?:if\s*\(.*\)\s*)?go\s*to\s+(\d+)$', st[2])
            return {m.group(1)} if m else set()
        if st[0] in ('do', 'while'):
            g = set().union(set(), *[self.gotos(s) for s in st[4]]) - {st[5] if len(st) > 5 else None}
            return {'inner'} | g if g else set()
        return set().union(set(), *[self.gotos(s) for _, b in st[2] for s in b])

    def flat(self, sts, inside=()):
        """(enclosing do variables, statement text) of every statement"""
        for st in sts:
            if st[0] == 'stmt':
                t = re.sub(r'^if\s*\(.*\)\s*(?=exit$)', '', st[2])
                yield inside, t
            elif st[0] == 'do':
                yield inside, ' '.join(st[3])
                yield from self.flat(st[4], inside + (st[2],))
            elif st[0] == 'while':
                yield inside, st[2]
                yield from self.flat(st[4], inside)
            else:
                for c, b in st[2]:
                    yield inside, c or ''
                    yield from self.flat(b, inside)

    def block(self, sts, loop=None):
        """loop: label whose goto means `continue`"""
        i, n = 0, 0
        while i < len(sts):
            lab = sts[i][1]
            last = None
            if lab and lab != loop:
                for k in range(i, len(sts)):
                    if lab in self.gotos(sts[k]):
                        last = k
            if last is not None:
                if any('inner' in self.gotos(s) for s in sts[i:last + 1]):
                    raise Unsupported('jump out of a loop')
                self.emit('while True:')
                self.ind += 1
                self.jumps.add(lab)
                self.block(sts[i:last + 1], lab)
                self.emit('break')
                self.ind -= 1
                i = last + 1
            else:
                self.one(sts[i], loop)
                i += 1
            n += 1
        if not n:
            self.emit('pass')

    def one(self, st, loop):
        k = st[0]
        if k == 'while':
            self.emit('while %s:' % self.expr(st[2])[0])
            self.ind += 1
            self.block(st[4], '')
            self.ind -= 1
            return
        if k == 'do':
            _, lab, v, bs, body, dl = st
            a = [self.expr(x) for x in bs]
            if any(t != 'i' for _, t in a):
                raise Unsupported('real loop bounds')
            lo, hi = a[0][0], a[1][0]
            step = a[2][0] if len(a) > 2 else '1'
            if step == '1':
                self.emit('for %s in range(%s, %s + 1):' % (self.var(v), lo, hi))
            elif step in ('(-1)', '-1'):
                self.emit('for %s in range(%s, %s - 1, -1):' % (self.var(v), lo, hi))
            else:
                raise Unsupported('loop step %s' % step)
            self.set.add(v)
            self.ind += 1
            self.block(body, dl or '')
            self.ind -= 1
            if v in self.outside:         # a finished loop leaves the variable one past the end
                if any(x[1] == 'exit' for x in self.flat(body)):
                    raise Unsupported('loop variable used after exit')
                if step == '1':
                    self.emit('%s = max(%s, %s + 1)' % (self.var(v), lo, hi))
                else:
                    self.emit('%s = min(%s, %s - 1)' % (self.var(v), lo, hi))
            return
        if k == 'if':
            for n, (c, b) in enumerate(st[2]):
                self.emit(('if %s:' if n == 0 else 'elif %s:') % self.expr(c)[0] if c is not None else 'else:')
                self.ind += 1
                self.block(b, loop)
                self.ind -= 1
            return
        t = st[2]
        if t == 'continue':
            self.emit('pass')
        elif t in ('cycle', 'exit'):
            if loop is None:
                raise Unsupported('%s outside a loop' % t)
            if loop in self.jumps:
                raise Unsupported('%s inside a jump loop' % t)
            self.emit('continue' if t == 'cycle' else 'break')
        elif t == 'return':
            self.ret()
        elif re.match(r'(print|write|pause)\b', t):
            self.emit('pass')
        elif re.match(r'go\s*to\s+\d+$', t):
            if re.search(r'\d+$', t).group() != loop and re.search(r'\d+$', t).group() in self.exits:
                self.ret()
                return
            if re.search(r'\d+$', t).group() != loop:
                raise Unsupported('jump to %s' % t)
            self.emit('continue')
        elif re.match(r'call\s', t):
            m = re.match(r'call\s+(\w+)\s*\((.*)\)$', t)
            c = self.units.get(m.group(1))
            if not c:
                raise Unsupported('call of %s' % m.group(1))
            self.call('', c, split(m.group(2)))
        elif re.match(r'if\s*\(', t):
            d = 0
            for i, ch in enumerate(t):
                d += (ch == '(') - (ch == ')')
                if ch == ')' and d == 0:
                    break
            self.emit('if %s:' % self.expr(t[t.index('(') + 1:i])[0])
            self.ind += 1
            self.one(('stmt', '', t[i + 1:].strip()), loop)
            self.ind -= 1
        else:
            m = re.match(r'(\w+)\s*(\((.*?)\))?\s*=\s*(.*)$', t)
            if not m:
                raise Unsupported('Fortran statement %r' % t)
            # array element with nested parentheses on the left
            v = m.group(1)
            if v in self.u.dims:
                d = 0
                s = t[len(v):].lstrip()
                for i, ch in enumerate(s):
                    d += (ch == '(') - (ch == ')')
                    if d == 0:
                        break
                tgt = self.elem(v, [self.expr(x) for x in split(s[1:i])])
                rhs = s[i + 1:].lstrip()[1:]
            else:
                if m.group(2):
                    raise Unsupported('Fortran statement %r' % t)
                tgt, rhs = self.var(v), m.group(4)
            rhs = rhs.strip()
            m = re.match(r'(\w+)\s*\((.*)\)$', rhs)
            c = m and self.units.get(m.group(1))
            if c and c.kind == 'function' and self.outs(c):
                self.call(tgt, c, split(m.group(2)))
                return
            x, ty = self.expr(rhs)
            want = self.u.type(v)
            if want == 'i' and ty == 'r':
                x = 'f_int(%s)' % x
            elif want == 'r' and ty == 'i':
                x = 'f_real(%s)' % x
            self.emit('%s = %s' % (tgt, x))
            self.set.add(v)

    def call(self, tgt, c, args):
        outs = self.outs(c)
        ts = [tgt] if tgt else []
        if len(args) != len(c.args):
            raise Unsupported('number of arguments of %s' % c.name)
        for a, x in zip(c.args, args):
            if a in outs:
                if not re.fullmatch(r'\w+', x):
                    raise Unsupported('output argument %r' % x)
                ts.append(self.var(x))
        xs = []
        for a, x in zip(c.args, args):
            if a in outs and x not in self.set:
                xs.append('f_undef(%r)' % self.u.type(x))            # not set before
                self.set.add(x)
            else:
                xs.append(self.expr(x)[0])
        self.emit('%s%s(%s)' % (', '.join(ts) + ' = ' if ts else '', self.fname(c.name), ', '.join(xs)))


def translate(src):
    return Translate(src).text


# ------------------------------------------------------------ native helpers
def native():
    """namespace for running the translated text with plain numbers"""
    import math
    import numpy

    def f_ix(i):
        if i < 0:
            raise IndexError('Fortran subscript below the lower bound')
        return i
    return dict(f_int=int, f_real=float, f_idiv=lambda a, b: int(a / b), f_pow=lambda a, b: a ** b, f_rpow=lambda a, b: a ** b, f_ix=f_ix,
                f_nint=lambda x: int(math.floor(x + .5)), f_mod=lambda a, b: int(math.fmod(a, b)) if isinstance(a, int) and isinstance(b, int) else math.fmod(a, b), f_sign=math.copysign, f_undef=lambda k: 0,
                f_local=lambda sh, k: numpy.zeros(sh), f_saved=Saved)


class Saved:
    """variables of a routine kept between calls"""
    _vc_state = True


# ---------------------------------------------------- f2py interface of a module
class Arg:
    def __init__(self, name, type, dims=None):
        self.name, self.type, self.dims, self.intent, self.optional, self.default, self.callback = name, type, dims, set(), False, None, None


class Routine:
    def __init__(self, name, kind, args):
        self.name, self.kind, self.order, self.args = name, kind, args, {}


def signatures(fsrc, pyf=None):
    """Python-visible routines: from the signature file if there is one, else from
    the declarations and cf2py comments of the source, as f2py does"""
    tr = Translate(fsrc)
    out = {}
    if pyf is None:
        dire = {}
        cur = None
        for raw in fsrc.split('\n'):
            m = re.match(r'\s+(?:[\w*]+\s+)?(?:subroutine|function)\s+(\w+)', raw, re.I)
            if m and raw[0] not in 'cC*!':
                cur = m.group(1).lower()
            m = re.match(r'cf2py\s+intent\((.*?)\)\s*(.*)$', raw.strip(), re.I)
            if m:
                for a in split(m.group(2).lower()):
                    dire.setdefault((cur, a), set()).update(x.strip() for x in m.group(1).lower().split(','))
        for n, u in tr.units.items():
            r = out[n] = Routine(n, u.kind, u.args)
            for a in u.args:
                x = r.args[a] = Arg(a, u.type(a), u.dims.get(a))
                x.intent = dire.get((n, a), {'in'})
                if a in u.externals:
                    raise Unsupported('callback without a signature file')
            for a in u.args:             # dimensions of input arrays are optional
                x = r.args[a]
                if x.dims and 'out' not in x.intent:
                    for k, (lb, ub) in enumerate(x.dims):
                        if ub in r.args and not r.args[ub].dims and r.args[ub].default is None:
                            r.args[ub].optional, r.args[ub].default = True, ('shape', a, k, 0)
        return tr, out
    cb, cur, use = {}, None, {}
    incb = False
    for raw in pyf.split('\n'):
        t = raw.split('!')[0].strip().lower()
        if not t:
            continue
        m = re.match(r'python module (\w+)', t)
        if m:
            incb = m.group(1).endswith('__user__routines')
            continue
        m = re.match(r'(subroutine|function)\s+(\w+)\s*\((.*?)\)', t)
        if m:
            cur = Routine(m.group(2), m.group(1), split(m.group(3)))
            (cb if incb else out)[cur.name] = cur
            use = {}
            continue
        if cur is None or t.startswith(('end', 'interface', 'python')):
            if t.startswith(('end function', 'end subroutine')):
                cur = None
            continue
        m = re.match(r'use\s+\w+\s*,\s*(\w+)\s*=>\s*(\w+)$', t)
        if m:
            use[m.group(1)] = m.group(2)
            continue
        m = re.match(r'external\s+(\w+)$', t)
        if m:
            x = cur.args[m.group(1)] = Arg(m.group(1), 'r')
            x.callback = use.get(m.group(1), m.group(1))
            x.intent = {'in'}
            continue
        m = re.match(r'(real\*8|double precision|integer|logical)\b\s*,?\s*(.*?)\s*::\s*(.*)$', t)
        if not m:
            raise Unsupported('signature line %r' % t)
        ty, attrs, decl = m.groups()
        m = re.match(r'(\w+)\s*(?:=\s*(.*))?$', decl)
        x = Arg(m.group(1), ty[0] if ty[0] in 'il' else 'r')
        x.intent = set()
        for at in re.split(r',\s*(?![^(]*\))|\s+(?=intent|optional|dimension|check|depend)', attrs):
            at = at.strip()
            if at.startswith('intent('):
                x.intent.update(y.strip() for y in at[7:-1].split(','))
            elif at == 'optional':
                x.optional = True
            elif at.startswith('dimension('):
                x.dims = [('1', d) for d in split(at[10:-1])]
            elif at and not at.startswith(('check(', 'depend(', 'check', 'depend')):
                raise Unsupported('signature attribute %r' % at)
        x.intent = x.intent or {'in'}
        if m.group(2):
            d = m.group(2).strip()
            m2 = re.fullmatch(r'\(?len\((\w+)\)\s*(?:-\s*(\d+))?\)?', d)
            if not m2:
                raise Unsupported('default %r' % d)
            x.default = ('shape', m2.group(1), 0, int(m2.group(2) or 0))
        cur.args[x.name] = x
    for r in list(out.values()) + list(cb.values()):
        for a in r.order:
            if a not in r.args:
                raise Unsupported('signature of %s' % r.name)
    for r in out.values():
        u = tr.units.get(r.name)
        if u is None or len(u.args) != len(r.order) or u.kind != r.kind:
            raise Unsupported('signature of %s does not match the source' % r.name)
        r.cb = cb
    return tr, out


def bind(tr, r, ns, hooks):
    """the Python callable f2py makes for routine r; hooks: real(x), int(x), array(x, type, ndim),
    newarray(shape, type), shape(a, k)"""
    req = [a for a in r.order if 'hide' not in r.args[a].intent and not ('out' in r.args[a].intent and 'in' not in r.args[a].intent) and not r.args[a].optional]
    opt = [a for a in r.order if r.args[a].optional and 'hide' not in r.args[a].intent]
    u = tr.units[r.name]

    def dim(e, env):
        m = re.fullmatch(r'(\w+)\s*(?:([+-])\s*(\d+))?', e.strip())
        if not m:
            raise Unsupported('dimension %r' % e)
        v = int(m.group(1)) if m.group(1).isdigit() else env[m.group(1)]
        k = int(m.group(3) or 0)
        return v - k if m.group(2) == '-' else v + k if k else v

    def size(x, env):
        """dimensions as declared"""
        out = []
        for lb, ub in x.dims:
            s = dim(ub, env)
            out.append(s if lb == '1' else s - int(lb) + 1)
        return out

    def call(*args, **kw):
        if len(args) > len(req) + len(opt):
            raise TypeError('%s() takes at most %d arguments' % (r.name, len(req) + len(opt)))
        given = dict(zip(req + opt, args))
        for k, v in kw.items():
            if k in given or k not in req + opt:
                raise TypeError('argument %s of %s' % (k, r.name))
            given[k] = v
        for a in req:
            if a not in given:
                raise TypeError('%s() missing required argument %s' % (r.name, a))
        env = {}
        for a in r.order:
            x = r.args[a]
            if a not in given:
                continue
            v = given[a]
            if x.callback:
                c = getattr(r, 'cb', {}).get(x.callback)
                if c is None:
                    raise Unsupported('callback %s' % a)
                env[a] = hooks['callback'](v, c)
            elif x.dims:
                env[a] = hooks['array'](v, x.type, len(x.dims))
            else:
                env[a] = hooks['int'](v) if x.type == 'i' else hooks['real'](v)
        for a in r.order:
            x = r.args[a]
            if x.optional and a not in given:
                _, arr, k, off = x.default
                s = hooks['shape'](env[arr], k)
                env[a] = s - off if off else s
        for a in r.order:
            x = r.args[a]
            if a not in env:
                if x.dims:
                    env[a] = hooks['newarray'](size(x, env), x.type)
                else:
                    env[a] = ns['f_undef'](x.type)
            elif x.dims and not x.callback:
                for k, d in enumerate(size(x, env)):
                    hooks['fits'](env[a], k, d)
        res = ns[r.name](*[env[a] for a in r.order])
        outs = tr.outs(u)
        names = ([None] if u.kind == 'function' else []) + outs
        if len(names) == 1:
            res = (res,)
        elif not names:
            res = ()
        for n, v in zip(names, res):
            if n is not None:
                # positions: the signature may name the arguments differently
                env[r.order[u.args.index(n)]] = v
        ret = [res[0]] if u.kind == 'function' else []
        ret += [env[a] for a in r.order if 'out' in r.args[a].intent]
        return None if not ret else ret[0] if len(ret) == 1 else tuple(ret)
    call.__name__ = r.name
    call.__doc__ = ''
    return call
