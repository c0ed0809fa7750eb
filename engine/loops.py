"""Loop rule: unroll concrete loops; cut symbolic ones with inferred/declared
invariants (closed forms of recurrences + Houdini-filtered candidates)."""
import os, types
import z3
from . import core
from .core import (CTX, SReal, SInt, SBool, Sym, Unsupported, PathEnd, SubExplore,
                   toreal, toint, tobool, kind, const_of, ite)
from .arr import (NArr, Store, VList, SymSeq, SymRange, cint, zint, toz, unz, SORT,
                  mentions)
from .lemmas import mksum, POW, EXP, subterms

NEXT, BREAK = 'next', 'break'
R, I = z3.RealSort(), z3.IntSort()


class RET:
    def __init__(self, value):
        self.value = value


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()
UNROLL_MAX = 400
DEBUG = os.environ.get('VC_LOOPS')


# ---------------------------------------------------------------- snapshots
def is_state_obj(o):
    if isinstance(o, (type, types.ModuleType, Sym)):
        return isinstance(o, Sym) and hasattr(o, '__dict__') and type(o) not in (SReal, SInt, SBool)
    m = type(o).__module__
    return getattr(type(o), '_vc_state', False) or m.startswith('inference') or \
        m.startswith('vcprop')


class Snapshot:
    """reachable mutable state from a set of roots"""

    def __init__(self, roots):
        """roots: list of (name, object)"""
        self.objs, self.lists, self.dicts, self.stores = {}, {}, {}, {}
        self.vlists, self.sets, self.arrs = {}, {}, {}
        self.keep = []
        self.bypath, self.path = {}, {}
        seen = set()
        queue = [((n,), o) for n, o in roots]
        qi = 0
        while qi < len(queue):
            p, o = queue[qi]
            qi += 1
            if id(o) in seen or o is None or isinstance(o, (int, float, str, bytes, z3.AstRef)):
                continue
            if isinstance(o, (type, types.ModuleType)):
                continue
            seen.add(id(o))
            self.keep.append(o)
            self.bypath[p] = o
            self.path[id(o)] = p
            if isinstance(o, NArr):
                s = o.store
                if id(s) not in self.stores:
                    self.stores[id(s)] = (s, s.cur, list(s.log), s.k, s.hist)
                    self.path[id(s)] = p + ('#store',)
                    self.bypath[p + ('#store',)] = s
                    self.keep.append(s)
            elif isinstance(o, Store):
                self.stores[id(o)] = (o, o.cur, list(o.log), o.k, o.hist)
            elif isinstance(o, VList):
                st = (None if o.items is None else list(o.items), o.n, o.fn, o.wrap, o.ekind,
                      getattr(o, 'toz_', None), getattr(o, 'pos', None))
                self.vlists[id(o)] = (o, st)
                if o.items is not None:
                    queue.extend((p + (i,), x) for i, x in enumerate(o.items))
                ex = getattr(o, '_vc_extra', None)
                if ex:
                    queue.extend((p + ('x%d' % i,), x) for i, x in enumerate(ex))
            elif isinstance(o, list):
                self.lists[id(o)] = (o, list(o))
                queue.extend((p + (i,), x) for i, x in enumerate(o))
            elif isinstance(o, dict):
                self.dicts[id(o)] = (o, dict(o))
                queue.extend((p + ('k%d' % i,), x) for i, x in enumerate(o.values()))
            elif isinstance(o, set):
                self.sets[id(o)] = (o, set(o))
            elif isinstance(o, tuple):
                queue.extend((p + (i,), x) for i, x in enumerate(o))
            elif isinstance(o, types.MethodType):
                queue.append((p + ('__self__',), o.__self__))
            elif isinstance(o, types.FunctionType):
                for i, c in enumerate(o.__closure__ or ()):
                    try:
                        queue.append((p + ('c%d' % i,), c.cell_contents))
                    except ValueError:
                        pass
                queue.extend((p + ('d%d' % i,), x) for i, x in enumerate(o.__defaults__ or ()))
            elif is_state_obj(o):
                try:
                    d = object.__getattribute__(o, '__dict__')
                except AttributeError:
                    continue
                self.objs[id(o)] = (o, dict(d))
                queue.extend((p + (k,), x) for k, x in d.items())
        # arrays that exist but are not reached: must stay as they are
        self.others = [(s, s.cur) for s in CTX.stores if id(s) not in self.stores]

    def restore(self):
        for o, d in self.objs.values():
            dd = object.__getattribute__(o, '__dict__')
            dd.clear()
            dd.update(d)
        for o, d in self.dicts.values():
            o.clear()
            o.update(d)
        for o, l in self.lists.values():
            o[:] = l
        for o, s in self.sets.values():
            o.clear()
            o.update(s)
        for o, st in self.vlists.values():
            o.items = None if st[0] is None else list(st[0])
            o.n, o.fn, o.wrap, o.ekind = st[1:5]
            if st[5]:
                o.toz_ = st[5]
            if st[6]:
                o.pos = st[6]
        for st, cur, log, k, hist in self.stores.values():
            st.cur, st.log, st.k, st.hist = cur, list(log), k, hist

    def diff(self):
        """locations whose current content differs from the snapshot"""
        return [(t, self.path[id(o)], k) for t, o, k in self._diff()]

    def _diff(self):
        if any(s.cur is not c for s, c in self.others):
            raise Unsupported('loop changes an array not reached from its variables')
        out = []
        for o, d in self.objs.values():
            dd = object.__getattribute__(o, '__dict__')
            for k in set(d) | set(dd):
                if not same(d.get(k, UNDEF), dd.get(k, UNDEF)):
                    out.append(('attr', o, k))
        for o, d in self.dicts.values():
            for k in list(d) + [x for x in o if x not in d]:
                if not same(d.get(k, UNDEF), o.get(k, UNDEF)):
                    out.append(('item', o, k))
        for o, l in self.lists.values():
            if len(o) != len(l) or any(not same(a, b) for a, b in zip(o, l)):
                out.append(('list', o, None))
        for o, s in self.sets.values():
            if o != s:
                out.append(('set', o, None))
        for o, st in self.vlists.values():
            if (o.items is None) != (st[0] is None):
                out.append(('vlist', o, None))
            elif o.items is not None:
                if len(o.items) != len(st[0]):
                    out.append(('vlist', o, None))
                else:
                    for i, (a, b) in enumerate(zip(o.items, st[0])):
                        if not same(a, b):
                            out.append(('vitem', o, i))
            elif o.fn is not st[2] or not same(o.n, st[1]):
                out.append(('vlist', o, None))
        for st, cur, log, k, _ in self.stores.values():
            if st.cur is not cur:
                out.append(('store', st, None))
        return out


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b):
        if a._z.eq(b._z):
            return type(a) in (SReal, SInt, SBool)
        return False
    if isinstance(a, (int, float, str, bool)) and type(a) is type(b):
        return a == b
    return False


# ------------------------------------------------------------------- state
class Loc:
    """a mutable location, addressed by an access path from the roots"""

    def __init__(self, kindname, path, k, nm=''):
        self.kindname, self.path, self.k, self.nm = kindname, path, k, nm
        self.id = (kindname, path, k)

    def obj(self, st):
        try:
            return st.bypath[self.path]
        except KeyError:
            raise Unsupported('location %s not present at loop entry' % (self.path,))

    def get(self, st):
        if self.kindname == 'local':
            return st.env.get(self.k, UNDEF)
        o = self.obj(st)
        if self.kindname == 'attr':
            return object.__getattribute__(o, '__dict__').get(self.k, UNDEF)
        if self.kindname == 'item':
            return o.get(self.k, UNDEF)
        if self.kindname == 'vitem':
            return o.items[self.k]
        return o

    def set(self, st, v):
        if self.kindname == 'local':
            if v is UNDEF:
                st.env.pop(self.k, None)
            else:
                st.env[self.k] = v
            return
        o = self.obj(st)
        if self.kindname == 'attr':
            d = object.__getattribute__(o, '__dict__')
            if v is UNDEF:
                d.pop(self.k, None)
            else:
                d[self.k] = v
        elif self.kindname == 'item':
            if v is UNDEF:
                o.pop(self.k, None)
            else:
                o[self.k] = v
        elif self.kindname == 'vitem':
            o.items[self.k] = v

    def name(self):
        if self.kindname == 'local':
            return str(self.k)
        return '.'.join(str(x) for x in self.path if x != '#store') + \
            ('.' + str(self.k) if self.k is not None else '')

    def scalar(self):
        return self.kindname in ('local', 'attr', 'item', 'vitem')


class State:
    def __init__(self, get, set_):
        self.getf, self.setf = get, set_
        self.env = get()

    def pull(self):
        self.env = self.getf()

    def push(self):
        self.setf(self.env)


def all_roots(st):
    return [('L:' + n, v) for n, v in sorted(st.env.items())] + \
        [('R:%d' % i, r) for i, r in enumerate(CTX.roots)]


class View:
    """what loop-invariant candidates see"""

    def __init__(self, env, k, env0, n=None, snap=None):
        self.env, self.k, self.env0, self.n, self.snap = env, k, env0, n, snap

    def entry(self, o):
        """(length, element function) of a list at loop entry"""
        st = self.snap.vlists.get(id(o)) if self.snap else None
        return (st[1][1], st[1][2]) if st and st[1][0] is None else None

    def __getattr__(self, n):
        try:
            return self.env[n]
        except KeyError:
            raise AttributeError(n)

    def scalars(self):
        return {n: v for n, v in self.env.items() if kind(v) and not isinstance(v, str)}


class Analysis:
    pass


def vtype(v):
    if v is UNDEF:
        return 'undef'
    k = kind(v)
    if k:
        return k
    if isinstance(v, NArr):
        return 'arr'
    return 'obj'


def join_types(ts):
    ts = set(ts) - {'undef'}
    if not ts:
        return None
    if ts == {'b'}:
        return 'b'
    if ts <= {'i', 'b'}:
        return 'i'
    if ts <= {'r', 'i', 'b'}:
        return 'r'
    if ts == {'arr'}:
        return 'arr'
    return 'obj'


def havoc_scalar(loc, t, tag):
    base = 'h_%s_%s' % (tag, loc.name())
    z = CTX.fresh(base, SORT[t])
    return unz(z, t)


def free_consts(e, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(t.decl().name())
            elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(t.decl().name())
            stack.extend(t.children())
    return acc


def merge_posts(paths, get):
    """ite-merge of a post value over the body paths (conditions partition)"""
    v = None
    xs = [get(post) for _, post in paths]
    if any(x is None for x in xs):
        return None
    if xs and all(x.eq(xs[0]) for x in xs):
        return z3.simplify(xs[0])
    if len(paths) > 40:
        return None
    for conds, post in reversed(paths):
        x = get(post)
        if v is None:
            v = x
        else:
            c = z3.And(*conds) if conds else z3.BoolVal(True)
            v = z3.If(c, x, v)
    return z3.simplify(v) if v is not None else None


def cut_loop(lid, st, space, cond, body):
    """space: SymSeq or None (while); cond(): truth of while test;
    body(item) -> NEXT / BREAK / RET.  Returns how the loop ended."""
    CTX.key += (lid,)           # (a later run of the same loop has another key)
    key = CTX.key
    st.pull()
    snap = Snapshot(all_roots(st))
    st.bypath = snap.bypath
    env0 = dict(st.env)
    tag = lid.split(':')[-1]
    n = space.n if space is not None else None
    an = CTX.loop_cache.get(key)
    kname = 'k_%s_%d' % (tag.replace('.', '_'), len(CTX.key))

    def fresh_k():
        return CTX.fresh(kname, I)

    def enter(k):
        CTX.assume(k >= 0)
        if space is not None:
            CTX.assume(k < zint(n))
            return space.item(k)
        if not cond():
            raise PathEnd()
        return None

    def reset():
        snap.restore()
        st.env = dict(env0)

    if an is None:
        sub0 = SubExplore()
        an = analyse(lid, tag, st, space, cond, body, snap, env0, fresh_k, enter, reset)
        sub0.restore()
        reset()
        st.push()
        CTX.loop_cache[key] = an
    # ---- state at an arbitrary loop head
    reset()
    CTX.key += an.phase()
    which = CTX.choose(2 + an.unbound, 'loop-exit') if an.abnormal or an.unbound else 0
    if which == 2:              # first iteration from the entry state: reads an unassigned local
        st.push()
        item = enter(z3.IntVal(0))
        try:
            body(item)
        except NameError:
            raise
        except (Unsupported, PathEnd):
            raise
        except Exception:
            pass
        raise PathEnd()
    if which == 0 and space is not None and not CTX.feasible(zint(n) < 0):
        k = zint(n)             # a for loop that ends normally has done n iterations
    else:
        k = fresh_k()
        CTX.assume(k >= 0)
        if n is not None:
            CTX.assume(z3.Or(k <= zint(n), z3.And(k == 0, zint(n) < 0)))
    an.apply(st, k, env0)
    st.push()
    for c in an.inv(View(st.env, k, env0, n, snap)):
        CTX.assume(c)
    if an.imprecise:
        CTX.imprecise = True
    if which == 0:
        if space is not None:
            CTX.assume(k >= zint(n))
        else:
            if cond():
                raise PathEnd()
        if an.undef_at_entry:
            if CTX.branch(k == 0):
                for loc in an.undef_at_entry:
                    loc.set(st, UNDEF)
                st.push()
        return NEXT
    item = enter(k)
    r = body(item)
    if r is NEXT:
        raise PathEnd()
    return r


def entry_ok(c):
    r = CTX.valid(c, ms=1500)
    if r.status != 'discharged' and not r.sat:
        CTX.shaky = True
    return r.status == 'discharged'


def analyse(lid, tag, st, space, cond, body, snap, env0, fresh_k, enter, reset):
    """The footprint of one iteration is computed under invariant candidates;
    it only counts when all of those turn out to be invariant."""
    reset()
    st.push()
    CTX.quiet += 1
    try:
        entry = {nm for nm, c in user_invs(lid, View(st.env, z3.IntVal(0), env0, space.n if space else None, snap)) if entry_ok(c)}
    finally:
        CTX.quiet -= 1
    for decl in declared(lid, st, space, snap, env0, reset) + [{}]:
        allowed = set(entry)
        while True:
            an = analyse1(lid, tag, st, space, cond, body, snap, env0, fresh_k, enter, reset, allowed, entry, decl)
            if an is None or an.used <= an.alive:
                break
            allowed = an.used & an.alive
        if an is not None:
            break
    if not CTX.quiet:
        confirm(an, st, space, body, snap, env0, fresh_k, enter, reset)
    return an


def analyse1(lid, tag, st, space, cond, body, snap, env0, fresh_k, enter, reset, allowed, entry, decl):
    an = Analysis()
    an.used = set()
    modified = {}      # id -> Loc
    types_ = {}
    closed = {}        # loc id -> fn(k) value
    store_closed = {}
    cells = {}         # store id -> the only cells written, when those do not depend on the iteration
    undef_entry = []
    abnormal = [False]
    CTX.quiet += 1
    try:
        for rnd in range(14):
            hsyms = {}
            bodyfresh = set()      # symbols invented by one iteration (not functions of k)

            def one():
                reset()
                k = fresh_k()
                for l in modified.values():
                    if l.kindname == 'store' and l.obj(st) in decl:
                        decl[l.obj(st)](l.obj(st), k)
                        continue
                    havoc_loc(l, types_.get(('ek', l.id), types_.get(l.id)), st, tag, hsyms, env0, cells.get(l.id))
                st.push()
                pre = {l.id: l.obj(st).cur for l in modified.values() if l.kindname == 'store'}
                base = len(CTX.pc)
                s2 = Snapshot(all_roots(st))
                for nm, c in user_invs(lid, View(st.env, k, env0, space.n if space else None, snap)):
                    if nm in allowed:
                        an.used.add(nm)
                        CTX.assume(c)
                item = enter(k)
                base2 = len(CTX.pc)
                ctr0 = dict(CTX.ctr)
                envh = dict(st.env)
                for o in list(s2.stores.values()):
                    o[0].log = []
                try:
                    r = body(item)
                except (Unsupported, PathEnd):
                    raise
                except Exception as e:
                    abnormal[0] = True
                    return None
                if r is not NEXT:
                    abnormal[0] = True
                    return None
                st.pull()
                for b, c in CTX.ctr.items():
                    for i in range(ctr0.get(b, 0), c):
                        bodyfresh.add('%s!%d' % (b, i) if i else b)
                locs = [Loc(*x) for x in s2.diff() if x[1] in st.bypath]
                for nm in set(envh) | set(st.env):
                    if not same(envh.get(nm, UNDEF), st.env.get(nm, UNDEF)):
                        locs.append(Loc('local', None, nm))
                post = {}
                for l in list(modified.values()) + locs:
                    v = l.get(st)
                    if isinstance(v, VList):
                        v = (v, None if v.items is None else list(v.items), v.n, v.fn, v.ekind)
                    elif isinstance(v, Store):
                        v = (v, v.cur, list(v.log), pre.get(l.id))
                    post[l.id] = v
                return (k, CTX.pc[base2:], locs, post, CTX.pc[base:base2])

            sub = SubExplore()
            res = [x for x in sub.run(one) if x is not None]
            reset()
            st.push()
            new = False
            for k, pcs, locs, post, _ in res:
                for l in locs:
                    if l.id not in modified:
                        # skip locals that are objects created in the body and
                        # undefined at entry (re-created each iteration)
                        modified[l.id] = l
                        new = True
            for l in modified.values():
                e = l.get(st)
                ts = [vtype(e)] + [vtype(p[l.id]) for _, _, _, p, _ in res if l.id in p and l.scalar()]
                if l.scalar():
                    t = join_types(ts)
                    if types_.get(l.id) != t:
                        types_[l.id] = t
                        new = True
                else:
                    types_[l.id] = 'heap'
                    if l.kindname == 'vlist':
                        ek = vlist_kind(l.obj(st), [p[l.id] for _, _, _, p, _ in res if l.id in p])
                        if types_.get(('ek', l.id)) != ek:
                            types_[('ek', l.id)] = ek
                            new = True
            if not new:
                syms = set(hsyms.values()) | bodyfresh | {str(r[0]) for r in res}
                for l in modified.values():
                    if l.kindname != 'store' or l.id in cells:
                        continue
                    cells[l.id] = written_cells([p.get(l.id) for _, _, _, p, _ in res], syms)
                    if cells[l.id]:
                        new = True
            if not new:
                break
        else:
            raise Unsupported('loop footprint does not stabilise')
        an.cells = {i: c for i, c in cells.items() if c}
        # ---------------- closed forms
        paths = [(pcs, post) for _, pcs, _, post, _ in res]
        kz = res[0][0] if res else None
        k_ok = all(r[0].eq(kz) for r in res)
        hav = dict(hsyms)          # loc id -> havoc z3 symbol name(s)
        dropped = set()
        while res and k_ok:
            closed, order = {}, []
            store_closed = {l.id: decl[l.obj(st)] for l in modified.values() if l.kindname == 'store' and l.obj(st) in decl}
            progress = True
            subst = []
            for l in modified.values():
                if l.id in store_closed:
                    # what is written, in the declared form (confirmed with the closed forms below)
                    for _, post in paths:
                        for e in post[l.id][2] if l.id in post else ():
                            if len(e) == 2 and z3.is_expr(e[1]) and e[1].num_args():
                                subst.append((e[1], decl[l.obj(st)].value(tuple(e[0])), 'written'))
            while progress:
                progress = False
                for l in modified.values():
                    if l.id in closed or l.id in store_closed or l.id in dropped:
                        continue
                    r = closed_form(l, types_, paths, kz, hav, subst, st, closed, store_closed, bodyfresh, cells)
                    if r is not None:
                        if l.scalar():
                            closed[l.id] = r
                        else:
                            store_closed[l.id] = r
                        order.append(l.id)
                        progress = True
            break
        if decl and not (res and k_ok and contents(st, space, body, env0, tag, fresh_k, enter, reset, modified, types_, closed, store_closed, cells, decl,
                                                    lambda k: [c for nm, c in user_invs(lid, View(st.env, k, env0, space.n if space else None, snap)) if nm in allowed])):
            return None
        an.modified, an.types, an.closed, an.store_closed = modified, types_, closed, store_closed
        an.tag = tag
        an.abnormal = abnormal[0]
        an.undef_at_entry = [l for l in modified.values()
                             if l.scalar() and l.get(st) is UNDEF]
        an.imprecise = any((l.id not in closed and l.id not in store_closed) and
                           types_.get(l.id) is not None
                           for l in modified.values())
        an.cands = []
        an.lid = lid
        an.unbound = 0
        if an.undef_at_entry:
            def first():
                reset()
                st.push()
                item = enter(z3.IntVal(0))
                try:
                    body(item)
                except NameError:
                    an.unbound = 1
                except (Unsupported, PathEnd):
                    raise
                except Exception:
                    pass
            SubExplore().run(first)
            reset()
            st.push()

        def apply(st_, k, env0_):
            hs = {}
            for l in modified.values():
                if l.id in closed:
                    l.set(st_, closed[l.id](k))
                elif l.id in store_closed:
                    store_closed[l.id](l.obj(st_), k)
                    if l.kindname == 'store' and store_closed[l.id] is not unchanged:
                        l.obj(st_).log.append(('region',))
                else:
                    havoc_loc(l, types_.get(('ek', l.id), types_.get(l.id)), st_, tag, hs, env0_, cells.get(l.id))
        an.apply = apply
        # ---------------- Houdini on declared / template candidates
        cands = []

        reset()
        st.push()
        v0 = View(st.env, z3.IntVal(0), env0, space.n if space else None, snap)
        base_c = []
        if an.imprecise or CTX.loop_hints:
            for nm, c in user_invs(lid, v0):
                if nm in entry:
                    base_c.append(nm)
            if an.imprecise:
                for nm, c in template_invs(lid, v0, an):
                    if entry_ok(c):
                        base_c.append(nm)
        alive = set(base_c)
        # nested loops are analysed again whenever the assumed invariants change
        an.phase = lambda: (hash(tuple(sorted(alive))),) if alive else ()

        def invs(view):
            out = []
            for nm, c in user_invs(lid, view):
                if nm in alive:
                    out.append((nm, c))
            if an.imprecise:
                for nm, c in template_invs(lid, view, an):
                    if nm in alive:
                        out.append((nm, c))
            return out
        an.inv = lambda view: [c for _, c in invs(view)]
        for rnd in range(40):
            if not alive:
                break
            failed = set()

            def one2():
                reset()
                CTX.key += an.phase()
                k = fresh_k()
                CTX.assume(k >= 0)
                apply(st, k, env0)
                st.push()
                for nm, c in invs(View(st.env, k, env0, space.n if space else None, snap)):
                    CTX.assume(c)
                item = enter(k)
                try:
                    r = body(item)
                except (Unsupported, PathEnd):
                    raise
                except Exception:
                    return
                if r is not NEXT:
                    return
                st.pull()
                todo = [(nm, c) for nm, c in invs(View(st.env, k + 1, env0, space.n if space else None, snap))
                        if nm not in failed]
                failed.update(batch_check(todo))
            SubExplore().run(one2)
            reset()
            st.push()
            if not failed:
                break
            alive -= failed
        else:
            raise Unsupported('Houdini did not converge')
        an.alive = alive
        if DEBUG:
            import sys
            print('loop', lid, 'candidates at entry', sorted(base_c), 'inductive', sorted(alive), file=sys.stderr)
    finally:
        CTX.quiet -= 1
    return an


def declared(lid, st, space, snap, env0, reset):
    """array summaries declared by the contract (hint.content): alternatives
    {local name: (shape, value)}, meaning that after k iterations cell j holds
    value(j) if shape(k, j), else what it held at entry"""
    out = []
    reset()
    st.push()
    CTX.quiet += 1
    try:
        for h in CTX.loop_hints:
            if not getattr(h, 'content', None):
                continue
            for d in h.content(lid, View(st.env, z3.IntVal(0), env0, space.n if space else None, snap)):
                m = {}
                for nm, (shape, value) in d.items():
                    if not isinstance(nm, Store) and not isinstance(env0.get(nm), NArr):
                        break
                    s = nm if isinstance(nm, Store) else env0[nm].store
                    sk = tuple(CTX.fresh('skc', I) for _ in range(s.ndim))
                    cur0 = s.cur
                    if not entry_ok(z3.Implies(shape(z3.IntVal(0), sk), value(sk) == cur0(sk))):
                        break

                    def app(o, kk, shape=shape, value=value, cur0=cur0):
                        def new(j):
                            c = z3.simplify(shape(kk, j))
                            return value(j) if z3.is_true(c) else cur0(j) if z3.is_false(c) else z3.If(c, value(j), cur0(j))
                        o.cur = new
                    app.value = value
                    m[s] = app
                else:
                    if m:
                        out.append(m)
    finally:
        CTX.quiet -= 1
    return out


def contents(st, space, body, env0, tag, fresh_k, enter, reset, modified, types_, closed, store_closed, cells, decl, invs):
    """are the declared array summaries inductive, given the invariant candidates in use?"""
    if not any(l.kindname == 'store' and l.obj(st) in decl for l in modified.values()):
        return False
    good = [True]

    def one():
        reset()
        k = fresh_k()
        CTX.assume(k >= 0)
        for m in modified.values():
            if m.id in closed:
                m.set(st, closed[m.id](k))
            elif m.id in store_closed:
                store_closed[m.id](m.obj(st), k)
            else:
                havoc_loc(m, types_.get(('ek', m.id), types_.get(m.id)), st, tag, {}, env0, cells.get(m.id))
        st.push()
        for c in invs(k):
            CTX.assume(c)
        item = enter(k)
        try:
            r = body(item)
        except (Unsupported, PathEnd):
            raise
        except Exception:
            return
        if r is not NEXT or not good[0]:
            return
        st.pull()
        for l in modified.values():
            if l.kindname == 'store' and l.obj(st) in decl:
                o = l.obj(st)
                j = tuple(CTX.fresh('skc', I) for _ in range(o.ndim))
                cur = o.cur
                decl[o](o, k + 1)
                want = o.cur
                o.cur = cur
                r = CTX.valid(cur(j) == want(j), ms=4000)
                if r.status != 'discharged':
                    good[0] = False
                    if not r.sat:
                        CTX.shaky = True
                    return
    SubExplore().run(one)
    reset()
    st.push()
    return good[0]


def confirm(an, st, space, body, snap, env0, fresh_k, enter, reset):
    lid, tag = an.lid, an.tag
    # ---------------- verification pass: closed forms inductive, body obligations
    if True:
        def final():
            reset()
            CTX.key += an.phase()
            k = fresh_k()
            CTX.assume(k >= 0)
            an.apply(st, k, env0)
            st.push()
            for c in an.inv(View(st.env, k, env0, space.n if space else None, snap)):
                CTX.assume(c)
            s2 = Snapshot(all_roots(st))
            pre = {l.id: l.obj(st).cur for l in an.modified.values() if l.id in an.cells}
            item = enter(k)
            envh = dict(st.env)
            try:
                r = body(item)
            except (Unsupported, PathEnd):
                raise
            except Exception:
                r = None
            if r is not NEXT:
                if not an.abnormal:
                    raise Unsupported('loop footprint misses an exit')
                return
            st.pull()
            known = {l.id for l in an.modified.values()}
            locs = [Loc(*x) for x in s2.diff() if x[1] in st.bypath]
            locs += [Loc('local', None, nm) for nm in set(envh) | set(st.env)
                     if not same(envh.get(nm, UNDEF), st.env.get(nm, UNDEF))]
            if any(l.id not in known for l in locs):
                raise Unsupported('loop footprint is incomplete')
            actual = {}
            for l in an.modified.values():
                v = l.get(st)
                actual[l.id] = v
                if isinstance(v, Store):
                    actual[l.id] = (v.cur, v.ndim)
                elif isinstance(v, VList):
                    actual[l.id] = (v.n if v.items is None else len(v.items), v.fn, v.items)
            for l in an.modified.values():
                if l.id in an.closed:
                    want = an.closed[l.id](k + 1)
                    a = actual[l.id]
                    if kind(want) and kind(a):
                        kk = kind(want)
                        CTX.prove('loop %s: closed form of %s is inductive' % (an.lid, l.name()),
                                  toz(a, kk) == toz(want, kk))
                elif l.id in an.store_closed and isinstance(l.obj(st), Store):
                    lo = l.obj(st)
                    sk = [CTX.fresh('skx', I) for _ in range(lo.ndim)]
                    cur = actual[l.id][0]
                    save = (lo.cur, lo.log)
                    reset()
                    an.apply(st, k + 1, env0)
                    CTX.prove('loop %s: array summary of %s is inductive' % (an.lid, l.name()),
                              cur(tuple(sk)) == lo.cur(tuple(sk)))
                    lo.cur, lo.log = save
                elif l.id in an.cells:
                    sk = tuple(CTX.fresh('skx', I) for _ in range(actual[l.id][1]))
                    CTX.prove('loop %s: only the written cells of %s change' % (an.lid, l.name()),
                              z3.Or(actual[l.id][0](sk) == pre[l.id](sk), *[z3.And(*[a == b for a, b in zip(sk, c)]) for c in an.cells[l.id]]))
        SubExplore().run(final)
        reset()
        st.push()


def nonlinear(e):
    from .relax import _linear
    return not _linear(e, {})


def near_pc(goal):
    """the hypotheses that do not involve the state of loops the goal does not
    speak of (None: all of them)"""
    from . import lemmas

    def loopsym(e):
        return {str(t) for t in lemmas.subterms([e]) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(t).startswith(('h_', 'k_'))}
    g = loopsym(goal)
    near = [e for e in CTX.pc if loopsym(e) <= g]
    return near if len(near) < len(CTX.pc) else None


def batch_check(todo):
    """names of candidates not valid under the path condition"""
    from . import lemmas
    import time
    failed = set()
    todo = [(n, c) for n, c in todo if not z3.is_true(z3.simplify(c))]
    while todo:
        CTX.tick()
        goal = z3.Not(z3.And(*[c for _, c in todo]))
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*lemmas.prepare(list(CTX.pc) + [goal]))
        t = time.time()
        r = s.check()
        CTX.solver_s += time.time() - t
        if r == z3.unsat:
            break
        if r == z3.sat:
            m = s.model()
            bad = [n for n, c in todo if not (lemmas._decl_names([c]) & {'SUM', 'FV', 'FA'}) and
                   z3.is_false(m.eval(c, model_completion=True))]
            if bad:
                failed.update(bad)
                todo = [(n, c) for n, c in todo if n not in failed]
                continue
        pc0, pairs = list(CTX.pc), []
        for nm, c in todo:
            if pairs:
                c = z3.substitute(z3.simplify(c), *pairs)
            r = None
            near = near_pc(c)
            if near is not None:        # fewer hypotheses first
                keep = CTX.pc[:]
                CTX.pc[:] = near
                r = CTX.valid(c, ms=1000)
                CTX.pc[:] = keep
            if r is None or r.status != 'discharged':
                r = CTX.valid(c, ms=2000)
            if r.status != 'discharged':
                failed.add(nm)
                if not r.sat:
                    CTX.shaky = True
            else:                       # cut: what is shown helps with the rest
                a = z3.simplify(c.arg(0)) if z3.is_eq(c) else None
                if a is not None and a.sort() == z3.RealSort() and a.num_args() > 1 and nonlinear(a):
                    pairs.append((a, c.arg(1)))         # equals for equals
                    CTX.pc[:] = [z3.substitute(z3.simplify(e), *pairs) for e in CTX.pc]
                else:
                    CTX.pc.append(c)
        CTX.pc[:] = pc0
        break
    return failed


def vlist_kind(o, posts):
    ks = set()
    if o.items is not None:
        for v in o.items:
            ks.add(kind(v))
    elif o.ekind:
        ks.add(o.ekind)
    for p in posts:
        if p[1] is not None:
            for v in p[1]:
                ks.add(kind(v))
        elif p[4]:
            ks.add(p[4])
    if None in ks:
        return None
    return 'r' if 'r' in ks else 'i' if 'i' in ks else 'b' if 'b' in ks else None


def havoc_loc(l, t, st, tag, hsyms, env0, cells=None):
    if l.kindname == 'store':
        o = l.obj(st)
        if cells:
            for i, z in enumerate(o.havoc_cells(cells, 'h_%s_%s' % (tag, o.name))):
                hsyms[('c', l.id, i)] = str(z)
            return
        o.havoc('h_%s_%s' % (tag, o.name))
        z = o.cur(tuple(z3.Int('q') for _ in range(o.ndim)))
        hsyms[l.id] = z.decl().name()
        return
    if l.kindname == 'vlist':
        ek = t if t in ('r', 'i', 'b') else None
        o = l.obj(st)
        k = o.ekind or getattr(o, '_ek', None)
        if o.items is not None:
            ks = [kind(v) for v in o.items]
            if any(x is None for x in ks):
                raise Unsupported('loop modifies a list of objects')
        f = CTX.fresh_fn('h_%s_list' % tag, I, R)
        nn = CTX.fresh('h_%s_len' % tag, I)
        CTX.assume(nn >= 0)
        if (ek or o.ekind) == 'i' or (o.items is None and o.ekind == 'i' and ek != 'r'):
            f = CTX.fresh_fn('h_%s_ilist' % tag, I, I)
            keep = (o.wrap, o.toz_) if o.items is None and o.ekind == 'i' else (None, None)
            o._sym(SInt(nn), lambda j: f(j), 'i', *keep)
        else:
            o._sym(SInt(nn), lambda j: f(j), 'r')
        hsyms[l.id] = f.name()
        hsyms[('n', l.id)] = str(nn)
        return
    if l.kindname in ('list', 'set'):
        raise Unsupported('loop modifies a native %s' % l.kindname)
    if t is None:
        l.set(st, UNDEF)
        return
    if t in ('r', 'i', 'b'):
        if l.get(st) is UNDEF and l.kindname == 'local':
            # first read in the body would be a NameError only when k==0
            pass
        v = havoc_scalar(l, t, tag)
        hsyms[l.id] = str(v._z)
        l.set(st, v)
        return
    if t == 'arr':
        v = l.get(st)
        if v is UNDEF:
            l.set(st, UNDEF)
            hsyms[l.id] = '#undef'
            return
        if isinstance(v, NArr):
            a = NArr.fresh('h_%s_%s' % (tag, l.name()), v.shp, v.store.k, inp=False)
            hsyms[l.id] = a.fn.name()
            l.set(st, a)
            return
    v = l.get(st)
    if t == 'obj' and (v is UNDEF):
        hsyms[l.id] = '#undef'
        return
    hook = [h for h in CTX.loop_hints if getattr(h, 'havoc_obj', None)]
    for h in hook:
        nv = h.havoc_obj(l, v, tag)
        if nv is not None:
            l.set(st, nv)
            hsyms[l.id] = '#obj'
            return
    raise Unsupported('loop changes object-valued location %s' % l.name())


def written_cells(posts, syms):
    """cells written in one iteration, if those are the same ones in every iteration"""
    out = []
    for p in posts:
        if p is None:
            continue
        for w in p[2]:
            if w[0] == 'region':
                return None
            idx = tuple(z3.simplify(x) for x in w[0])
            if any(free_consts(x) & syms for x in idx):
                return None
            if not any(all(a.eq(b) for a, b in zip(idx, c)) for c in out):
                out.append(idx)
    return out if 0 < len(out) <= 6 else None


def unchanged(o, k):
    """array summary: every iteration leaves the array as it found it"""


def net_unchanged(l, paths, s):
    jz = tuple(z3.Int('jst#%d' % i) for i in range(s.ndim))
    for pcs, post in paths:
        p = post.get(l.id)
        if p is None:
            continue
        if p[3] is None:
            return False
        a, b = z3.simplify(p[1](jz)), z3.simplify(p[3](jz))
        if a.eq(b):
            continue
        sv = z3.Solver()
        sv.set('timeout', 300)
        sv.add(*pcs)
        sv.add(a != b)
        if sv.check() != z3.unsat:
            return False
    return True


def closed_form(l, types_, paths, k, hav, subst, st, closed, store_closed, bodyfresh=(), cells={}):
    """try to solve the recurrence of location l; returns fn(k)->value"""
    unsolved = {}
    for lid, sym in hav.items():
        base = lid[1] if isinstance(lid, tuple) and lid and lid[0] in ('n', 'c') else lid
        if base in closed or base in store_closed:
            continue
        unsolved[sym] = base

    def clean(e, allow=()):
        fc = free_consts(e)
        return not any(s in fc for s in unsolved if s not in allow) and fc.isdisjoint(bodyfresh)

    def sub(e):
        cs = [x for x in subst if not callable(x[1]) and len(x) == 2]
        fs = {x[0]: x[1] for x in subst if callable(x[1])}
        if cs:
            e = z3.substitute(e, *cs)
        for _ in range(6 if fs else 0):
            reps = []
            for t in subterms([e]):
                if z3.is_app(t) and t.num_args() and t.decl().name() in fs:
                    reps.append((t, fs[t.decl().name()](tuple(t.children()))))
            if not reps:
                break
            e = z3.simplify(z3.substitute(e, *reps))
            if cs:
                e = z3.substitute(e, *cs)
        return e
    if l.scalar():
        t = types_.get(l.id)
        if t not in ('r', 'i'):
            if t in ('obj', 'arr') and l.get(st) is UNDEF:
                return None
            return None
        hs = z3.Const(hav[l.id], SORT[t]) if l.id in hav else None

        def get(post):
            v = post.get(l.id, UNDEF)
            if v is UNDEF or kind(v) is None:
                return None
            return toz(v, t)
        M = merge_posts(paths, get)
        if M is None or hs is None:
            return None
        M = sub(M)
        e0 = l.get(st)
        d = z3.simplify(M - hs, som=True)
        for x in subst:
            if len(x) == 3 and x[0].sort() == d.sort() and const_of(z3.simplify(d - sub(x[0]), som=True)) == 0:
                d = x[1]
        if not clean(d):
            # increments that differ from path to path
            d2 = merge_posts(paths, lambda post: z3.simplify(sub(get(post)) - hs, som=True))
            if d2 is not None and clean(z3.simplify(sub(d2))):
                d = z3.simplify(sub(d2))
        if e0 is not UNDEF and kind(e0) and clean(d):
            z0 = toz(e0, t)
            c = const_of(d)
            if c is not None:
                cz = z3.IntVal(int(c)) if t == 'i' else core.realval(c)
                f = (lambda kk: unz(z3.simplify(z0 + kk * cz), 'i')) if t == 'i' else \
                    (lambda kk: unz(z3.simplify(z0 + z3.ToReal(kk) * cz), 'r'))
            elif not mentions(d, k):
                f = (lambda kk: SInt(z0 + kk * d)) if t == 'i' else \
                    (lambda kk: SReal(z0 + z3.ToReal(kk) * d))
            elif t == 'r':
                f = lambda kk: SReal(z3.simplify(z0 + mksum(lambda j: z3.substitute(d, (k, j)), 0, SInt(kk))))
            else:
                f = lambda kk: SInt(z3.simplify(z0 + z3.ToInt(mksum(lambda j: z3.ToReal(z3.substitute(d, (k, j))), 0, SInt(kk)))))
            subst.append((hs, f(k)._z))
            return f
        if clean(M):
            if e0 is UNDEF or kind(e0) is None:
                f = lambda kk: unz(z3.simplify(z3.substitute(M, (k, kk - 1))), t)
                subst.append((hs, f(k)._z))
                return f
            z0 = toz(e0, t)
            f = lambda kk: unz(z3.simplify(z3.If(kk == 0, z0, z3.substitute(M, (k, kk - 1)))), t)
            subst.append((hs, f(k)._z))
            return f
        if e0 is not UNDEF and kind(e0) and t == 'r':
            # geometric: M = h * c
            q = z3.simplify(z3.substitute(M, (hs, z3.RealVal(1))))
            if clean(q) and not mentions(q, k) and z3.is_true(
                    z3.simplify(z3.simplify(M - hs * q, som=True) == 0)):
                z0 = toz(e0, t)
                if z3.is_app(q) and q.decl().eq(EXP):
                    qa = q.arg(0)
                    f = lambda kk: SReal(z0 * EXP(qa * z3.ToReal(kk)))
                else:
                    f = lambda kk: SReal(z0 * POW(q, z3.ToReal(kk)))
                subst.append((hs, f(k)._z))
                return f
        return None
    if l.kindname == 'store':
        s = l.obj(st)
        if net_unchanged(l, paths, s):
            if l.id in hav:
                subst.append((hav[l.id], s.cur))
            else:
                for i, c in enumerate(cells.get(l.id) or ()):
                    subst.append((z3.Const(hav[('c', l.id, i)], SORT[s.k]), s.cur(c)))
            return unchanged
        if l.id not in hav:
            return None
        return store_form(l, s, paths, k, hav, subst, sub, clean)
    if l.kindname == 'vlist':
        o = l.obj(st)
        if getattr(o, 'custom', False):
            return None
        n0 = o._vc_len()
        # unconditional single append
        vals = []
        ks = set()
        hname = hav.get(l.id)
        for pcs, post in paths:
            p = post.get(l.id)
            if p is None or p[1] is not None:
                return None
            nz = z3.Const(hav[('n', l.id)], I)
            if not z3.is_true(z3.simplify(zint(p[2]) == nz + 1)):
                return None
            v = z3.simplify(p[3](nz))
            ks.add(p[4])
            vals.append((pcs, v))
        V = None
        for pcs, v in reversed(vals):
            V = v if V is None else z3.If(z3.And(*pcs) if pcs else z3.BoolVal(True), v, V)
        if V is None:
            return None
        V = z3.simplify(sub(V))
        lenclean = hav[('n', l.id)]
        if hname in free_consts(V) or not clean(V, allow=(hname, lenclean)):
            return None
        nz = z3.Const(lenclean, I)
        zn0 = zint(n0)
        V = z3.substitute(V, (nz, zn0 + k))
        if not clean(V):
            return None
        ek = 'r' if V.sort() == R else 'i'
        if o.items is not None:
            zs = [toz(x, ek) for x in o.items]
            from .arr import pick
            old = (lambda j: pick(zs, j)) if zs else None
        else:
            of, ok = o.fn, o.ekind
            old = lambda j: toz(unz(of(j), ok), ek)

        def app(o, kk):
            def fn(j):
                v = z3.substitute(V, (k, j - zn0))
                if old is None:
                    return v
                c = z3.simplify(j < zn0)
                if z3.is_false(c):
                    return v
                return z3.If(c, old(j), v)
            o._sym(SInt(z3.simplify(zn0 + kk)), fn, ek)
        subst.append((nz, zn0 + k))
        return app
    return None


def implied(pcs, goal, ms=400):
    sv = z3.Solver()
    sv.set('timeout', ms)
    sv.add(*pcs)
    sv.add(z3.Not(goal))
    return sv.check() == z3.unsat


def store_form(l, s, paths, k, hav, subst, sub, clean):
    """array summary: each iteration writes cells that are its own (an index
    invertible in k), the same cells every time, or restores what it wrote"""
    hname = hav.get(l.id)
    hf = z3.Function(hname, *([I] * s.ndim + [SORT[s.k]]))
    cur0 = s.cur
    idxs = []
    for pcs, post in paths:
        p = post.get(l.id)
        if p is None:
            continue
        for w in p[2]:
            if w[0] == 'region':
                return slab_form(s, hname, hf, paths, k, subst, sub, clean, l)
            ii = tuple(z3.simplify(sub(x)) for x in w[0])
            if not any(all(z3.is_true(z3.simplify(a == b)) for a, b in zip(x, ii)) for x in idxs):
                idxs.append(ii)
    if not idxs or len(idxs) > 4 or not all(clean(x) for ii in idxs for x in ii):
        return None
    pcs_of = [[k >= 0] + [z3.simplify(sub(c)) for c in pcs] for pcs, _ in paths]

    def same_cell(x, y):
        return z3.And(*[a == b for a, b in zip(x, y)])
    cells = []                      # (idx, inv or None, V)
    for idx in idxs:
        V = merge_posts(paths, lambda post: post[l.id][1](idx) if post.get(l.id) is not None else None)
        if V is None:
            return None
        V = z3.simplify(sub(V))
        if len(idxs) > 1 and all(implied(CTX.pc + pcs, z3.simplify(sub(post[l.id][1](idx))) == hf(*idx)) for pcs, (_, post) in zip(pcs_of, paths) if post.get(l.id) is not None):
            continue                # restored
        inv = invert_index(idx, k)
        if inv is None and any(mentions(x, k) for x in idx):
            return None
        cells.append((idx, inv, V))
    if not cells:
        return None
    k2 = z3.Int('kst#2')
    anypath = lambda kk: z3.Or(*[z3.And(*[z3.substitute(c, (k, kk)) for c in pcs]) for pcs in pcs_of])
    for a in range(len(cells)):
        for b in range(a):
            x, y = cells[a][0], cells[b][0]
            if not implied(CTX.pc + [anypath(k), anypath(k2)], z3.Not(same_cell(x, tuple(z3.substitute(t, (k, k2)) for t in y)))):
                return None
    # what an iteration reads of cells written by no earlier one is the content at entry
    out = []
    for idx, inv, V in cells:
        if inv is not None and len(cells) == 1:
            V = z3.substitute(V, (hf(*idx), cur0(idx)))
        reps = []
        for t in subterms([V]):
            if z3.is_app(t) and t.num_args() and t.decl().name() == hname:
                ar = tuple(t.children())
                if implied(CTX.pc + [anypath(k), k2 >= 0, k2 < k],
                           z3.And(*[z3.Not(same_cell(ar, tuple(z3.substitute(c, (k, k2)) for c in ix))) for ix, _, _ in cells])):
                    reps.append((t, cur0(ar)))
        if reps:
            V = z3.substitute(V, *reps)
        V = z3.simplify(V)
        if not clean(V) or hname in free_consts(V):
            return None
        out.append((idx, inv, V))

    def app(o, kk):
        def new(j):
            r = cur0(j)
            for idx, inv, V in out:
                if inv is None:
                    c = z3.simplify(z3.And(kk > 0, same_cell(j, idx)))
                    v = z3.substitute(V, (k, kk - 1))
                else:
                    kj, okc = inv(j)
                    c = z3.simplify(z3.And(okc, kj >= 0, kj < kk))
                    v = z3.substitute(V, (k, kj))
                if z3.is_true(c):
                    r = v
                elif not z3.is_false(c):
                    r = z3.If(c, v, r)
            return r
        o.cur = new
        o.hist = getattr(o, 'hist', ()) + tuple(idx for idx, inv, _ in out if inv is None)

    class _T:
        pass
    t_ = _T()
    app(t_, k)
    subst.append((hname, t_.cur))
    return app


def slab_form(s, hname, hf, paths, k, subst, sub, clean, l):
    """array summary: iteration k changes only the cells whose index along some axis is k + a"""
    cur0 = s.cur
    j = tuple(z3.Int('slab#%d' % i) for i in range(s.ndim))
    V = merge_posts(paths, lambda post: post[l.id][1](j) if post.get(l.id) is not None else hf(*j))
    if V is None:
        return None
    V = z3.simplify(sub(V))
    pcs_of = [[k >= 0] + [z3.simplify(sub(c)) for c in pcs] for pcs, _ in paths]
    anypath = z3.Or(*[z3.And(*pcs) for pcs in pcs_of])
    for ax in range(s.ndim):
        for a in (0, 1, -1):
            if not implied(CTX.pc + [anypath], z3.Or(j[ax] == k + a, V == hf(*j))):
                continue
            W = z3.simplify(z3.substitute(V, (k, j[ax] - a)))
            W = z3.simplify(z3.substitute(W, (hf(*j), cur0(j))))
            if not clean(W) or hname in free_consts(W):
                continue

            def app(o, kk, ax=ax, a=a, W=W):
                def new(jj):
                    c = z3.simplify(z3.And(jj[ax] - a >= 0, jj[ax] - a < kk))
                    v = lambda: z3.substitute(W, *zip(j, [x if z3.is_expr(x) else z3.IntVal(x) for x in jj]))
                    return v() if z3.is_true(c) else cur0(jj) if z3.is_false(c) else z3.If(c, v(), cur0(jj))
                o.cur = new

            class _T:
                pass
            t_ = _T()
            app(t_, k)
            subst.append((hname, t_.cur))
            return app
    return None


def invert_index(idx, k):
    """solve j == idx(k) for k"""
    for ax, e in enumerate(idx):
        if mentions(e, k):
            a = z3.simplify(z3.substitute(e, (k, z3.IntVal(0))))
            d = z3.simplify(z3.substitute(e, (k, k + 1)) - e, som=True)
            c = const_of(d)
            if c is not None and c in (1, -1):
                others = [(i, x) for i, x in enumerate(idx) if i != ax]

                def inv(j, ax=ax, a=a, c=int(c), others=others):
                    kj = z3.simplify((j[ax] - a) * c)
                    ok = [j[i] == z3.substitute(x, (k, kj)) for i, x in others]
                    return kj, z3.And(*ok) if ok else z3.BoolVal(True)
                return inv
            # reference drawn from a list with a position function
            for h in CTX.loop_hints:
                g = getattr(h, 'invert', None)
                if g:
                    r = g(idx, k)
                    if r:
                        return r
    return None


# -------------------------------------------------------------- candidates
def user_invs(lid, view):
    out = []
    for h in CTX.loop_hints:
        f = getattr(h, 'invs', None)
        if f is None:
            continue
        try:
            for nm, c in f(lid, view) or ():
                out.append((nm, tobool(c)))
        except AttributeError:
            pass
    return out


def template_invs(lid, view, an):
    out = []
    for h in CTX.loop_hints:
        f = getattr(h, 'templates', None)
        if f:
            for nm, c in f(lid, view, an) or ():
                out.append((nm, tobool(c)))
    return out


# ------------------------------------------------------------ entry points
def symbolic_space(it):
    """SymSeq view of an iterable of symbolic length, or None"""
    if isinstance(it, SymSeq):
        return it if cint(it.n) is None else None
    if isinstance(it, VList) and it.items is None and cint(it.n) is None:
        sp = SymSeq(it.n, lambda k, it=it: it.wrap(it.fn(zint(k))), 'list')
        if hasattr(it, 'pos'):
            sp.pos = it.pos
        return sp
    if isinstance(it, NArr) and it.ndim >= 1 and cint(it.shp[0]) is None:
        return SymSeq(it.shp[0], lambda k, it=it: it._view(_Idx(k)) if it.ndim > 1 else it.at(k), 'array')
    g = getattr(it, '_vc_space', None)
    if g:
        return g()
    return None


class _Idx(SInt):
    pass


def loop_for(lid, it, body, get, set_):
    sp = symbolic_space(it)
    if sp is None:
        n = 0
        for item in (it if not isinstance(it, SymSeq) else iter(it)):
            r = body(item)
            n += 1
            if n > 20000:
                raise Unsupported('concrete loop too long')
            if r is NEXT:
                continue
            return r
        return NEXT
    st = State(get, set_)
    if getattr(CTX, 'peel', False):
        # split off the first iteration(s) and the last (sound loop splitting)
        p = int(CTX.peel)
        for i in range(p):
            if CTX.branch(zint(sp.n) <= i):
                return NEXT
            r = body(sp.item(z3.IntVal(i)))
            if r is not NEXT:
                return r
        if CTX.branch(zint(sp.n) == p):
            return NEXT
        if not CTX.branch(zint(sp.n) == p + 1):
            n2 = SInt(z3.simplify(zint(sp.n) - p - 1))
            mid = SymSeq(n2, lambda k: sp.item(z3.simplify(zint(k) + p)), 'mid')
            r = cut_loop(lid, st, mid, None, body)
            if r is not NEXT:
                return r
        return body(sp.item(z3.simplify(zint(sp.n) - 1)))
    return cut_loop(lid, st, sp, None, body)


def loop_while(lid, const, cond, body, get, set_):
    n = 0
    if not const:
        while True:
            c = cond()
            if isinstance(c, Sym) and const_of_bool(c) is None:
                break
            if not c:
                return NEXT
            r = body(None)
            if r is not NEXT:
                return r
            n += 1
            if n > UNROLL_MAX:
                raise Unsupported('concrete while loop too long')
    if getattr(CTX, 'unroll', False):
        # follow every iteration (paths fork); all of them must end within the limit
        for n in range(CTX.unroll):
            if not cond():
                return NEXT
            r = body(None)
            if r is not NEXT:
                return r
        raise Unsupported('loop not finished within the unrolling limit')
    if getattr(CTX, 'peel', False):
        # split off the first iteration
        if not cond():
            return NEXT
        r = body(None)
        if r is not NEXT:
            return r
    st = State(get, set_)
    return cut_loop(lid, st, None, lambda: bool(cond()), body)


def const_of_bool(s):
    z = z3.simplify(s._z if isinstance(s, SBool) else tobool(s))
    return True if z3.is_true(z) else False if z3.is_false(z) else None
