"""C26 array / attribute stores: round trip through the file for arbitrary
contents (any number of entries), any names and any mix of reads and writes."""
import z3
from z3 import And, Or, Implies, Not
from engine import loader, fsmodel, shims, sdict
from engine.core import *
from engine.fsmodel import SStr, FS, zs
from engine.heap import IdList, Inverter
from engine.sdict import Name, Val, ArrVal, SDict, UNDERSCORE
I = z3.IntSort()

LEVEL = 'proof'
FILES = ['utils/ioutils.py']
FUNCTIONS = ['utils.ioutils.%s.%s' % (c, f) for c in ('ArrayStore', 'AttrStore')
             for f in ('__init__', '__getattr__', '__setattr__', 'save', 'contents')] + ['utils.ioutils.backup', 'utils.ioutils.safe_open']
EXTS = []
ASSUMPTIONS = ['numpy.load(savez(...)) gives back exactly the saved names and arrays; savez adds a missing .npz; an open archive '
               'is read lazily and broken by overwriting its file in place; pickle.load(pickle.dump(..)) gives back equal '
               'objects; file-system model of engine/fsmodel.py; dictionaries as maps (engine/sdict.py)',
               'names are ordinary attribute names: not methods or internal attributes of the store, and (ArrayStore) not the '
               "parameter names of numpy.savez ('file', known finding)"]
RUN_S = 5
TASK_S = 90

SRC = '''
def setall(store, names, value):
    for x in names:
        setattr(store, x, value(x))

def readall(store, names):
    for x in names:
        try:
            getattr(store, x)
        except AttributeError:
            pass
'''


def names(nm):
    """an arbitrary list of distinct names"""
    f, p = CTX.fresh_fn('L_' + nm, I, I), CTX.fresh_fn('P_' + nm, I, I)
    n = CTX.fresh('n_' + nm, I)
    l = IdList()
    l.heap, l.cls = None, Name
    l._sym(SInt(n), lambda j: f(j), 'i', lambda z: Name(z), lambda v: v._id)
    l.pos = lambda x: p(x)
    j = z3.Int('j!' + nm)
    CTX.assume([n >= 0, z3.ForAll([j], Implies(And(0 <= j, j < n), And(p(f(j)) == j, Not(UNDERSCORE(f(j))))), patterns=[f(j)])])
    return l


def setup(cls, suffix):
    m = loader.fresh_import('inference.utils.ioutils')
    t = loader.load_text(SRC)
    CTX.symdicts = True
    fs = fsmodel.use(FS())
    kind_ = cls == 'ArrayStore'
    V = ArrVal if kind_ else Val
    SDict.wrap = V
    ext = '.npz' if kind_ else '.pkl'
    B = base('B', ext)
    F = B + ext if suffix else B
    full = B + ext
    C = getattr(m, cls)
    return m, t, C, fs, F, full, V, kind_


SYM = [False]


def base(n, ext):
    """a file name without suffix"""
    if not SYM[0]:
        return 'name_' + n
    B = SStr(z3.String(n))
    CTX.assume([z3.Length(B._z) > 0, Not(z3.SuffixOf(z3.StringVal(ext), B._z))])
    return B


def archive(fs, full, kind_, tag='A'):
    """an arbitrary archive under the full file name"""
    A = SDict.fresh(tag)
    x = z3.Int('x!u' + tag)
    CTX.assume(z3.ForAll([x], Implies(A.P(x), Not(UNDERSCORE(x))), patterns=[A.P(x)]))
    fs.write_obj(full, ('npz' if kind_ else 'pickle', A.copy()))
    return A.frozen()


def nm(s):
    z = CTX.fresh('name_' + s, I)
    CTX.assume(Not(UNDERSCORE(z)))
    return Name(z)


def attempt(what, f, *a):
    try:
        return True, f(*a)
    except (AttributeError, TypeError, ValueError, KeyError, OSError, IndexError, NameError) as e:
        CTX.prove('%s does not fail (%s)' % (what, type(e).__name__), z3.BoolVal(False))
        return False, None


def expect(store, x, want, tag):
    """store.x is what the map says, or an attribute error"""
    has = CTX.branch(want.P(x._id))
    try:
        v = x.get(store)
    except AttributeError:
        CTX.prove('%s: a stored name is found' % tag, z3.BoolVal(not has))
        return
    except (KeyError, ValueError, TypeError, NameError) as e:
        CTX.prove('%s: reading raises nothing but AttributeError' % tag, z3.BoolVal(False))
        return
    if not isinstance(v, Val):
        CTX.prove('%s: the stored object is returned' % tag, z3.BoolVal(False))
        return
    CTX.prove('%s: a name never stored is an attribute error' % tag, z3.BoolVal(has))
    CTX.prove('%s: the stored object is returned' % tag, v._id == want.V(x._id))


def read(s, x):
    try:
        x.get(s)
    except AttributeError:
        pass


def history(cls, start, bulk, suffix, saveas, look, sym=False):
    def path():
        SYM[0] = sym
        m, t, C, fs, F, full, V, kind_ = setup(cls, suffix)
        want = SDict()
        if start == 'file':
            want = archive(fs, full, kind_)
            ok, s = attempt('opening', C, F)
            if not ok:
                return
        else:
            s = C()
        x = CTX.fresh('x', I)
        X = Name(x)
        CTX.assume(Not(UNDERSCORE(x)))
        CTX.roots = [s]
        sdict.inst(s)
        CTX.loop_hints = [KeyInv()]
        val = CTX.fresh_fn('val', I, I)
        if bulk:
            t['readall'](s, names('R'))
            S = names('S')
            t['setall'](s, S, lambda n: V(val(n._id)))
            p, v, h = want.pres.cur, want.val.cur, S.has
            want = SDict(lambda j: Or(h(j[0]), p(j)), lambda j: z3.If(h(j[0]), val(j[0]), v(j)))
        else:
            read(s, nm('a'))
            b = nm('b')
            vb = V(CTX.fresh('vb', I))
            b.set(s, vb)
            want[b] = vb
            if look != 're-opened':
                read(s, nm('d'))
                b = nm('c')
                vb = V(CTX.fresh('vc', I))
                b.set(s, vb)
                want[b] = vb
        W = want.frozen()
        if look == 'before save':
            CTX.cover('before save')
            expect(s, X, W, look)
            return
        if saveas == 'own':
            ok, _ = attempt('save()', s.save)
            G = full
        elif saveas == 'same':
            ok, _ = attempt('save(name)', s.save, F)
            G = full
        else:
            ext = '.npz' if kind_ else '.pkl'
            B2 = base('B2', ext)
            G = B2 + ext
            ok, _ = attempt('save(name)', s.save, G if saveas == 'new+ext' else B2)
        if not ok:
            return
        CTX.cover('saved')
        if look == 'after save':
            expect(s, X, W, look)
            return
        ok, r = attempt('opening the saved file', C, G if suffix else B2 if saveas.startswith('new') else F)
        if ok:
            expect(r, X, W, 're-opened')
    explore(path)


class KeyInv:
    """writes at the k-th element of an enumeration are inverted by its position map"""

    def invert(self, idx, k):
        e = idx[0]
        if len(idx) == 1 and z3.is_app(e) and e.num_args() == 1 and e.arg(0).eq(k):
            f = e.decl()
            n = f.name()
            for a, b in (('L_', 'P_'), ('key', 'kpos')):
                if n.startswith(a):
                    p = z3.Function(b + n[len(a):], I, I)
                    return lambda j: (p(j[0]), f(p(j[0])) == j[0])
        return None


def contents(cls, start, saved):
    def path():
        SYM[0] = False
        m, t, C, fs, F, full, V, kind_ = setup(cls, True)
        want = SDict()
        if start == 'file':
            want = archive(fs, full, kind_)
            ok, s = attempt('opening', C, F)
            if not ok:
                return
        else:
            s = C()
        CTX.roots = [s]
        sdict.inst(s)
        CTX.loop_hints = [KeyInv()]
        if not saved:
            t['readall'](s, names('R'))
        S = names('S')
        t['setall'](s, S, lambda n: V(z3.IntVal(7)))
        p, h = want.pres.cur, S.has
        W = lambda j: Or(h(j), p((j,)))
        if saved:
            ok, _ = attempt('save', s.save, F)
            if not ok:
                return
            ok, s = attempt('opening', C, F)
            if not ok:
                return
        ok, l = attempt('contents()', s.contents)
        if not ok:
            return
        CTX.cover('contents')
        if not isinstance(l, IdList):
            if getattr(l, 'items', None) != []:
                raise Unsupported('listing')
            x = CTX.fresh('x', I)
            CTX.prove('an empty listing means nothing is stored', Not(W(x)))
            return
        i, j, x = CTX.fresh('i', I), CTX.fresh('j', I), CTX.fresh('x', I)
        n = toint(l.n)
        CTX.prove('every listed name is stored', Implies(And(0 <= i, i < n), W(l.fn(i))))
        CTX.prove('no name is listed twice', Implies(And(0 <= i, i < j, j < n), l.fn(i) != l.fn(j)))
        CTX.prove('every stored name is listed', Implies(W(x), l.has(x)))
    explore(path)


def keywords():
    """AttrStore(name, key=value): the values are stored like assigned ones"""
    def path():
        SYM[0] = False
        m, t, C, fs, F, full, V, kind_ = setup('AttrStore', True)
        want = archive(fs, full, kind_)

        class S(C):         # instance attributes by (symbolic) name
            def __new__(cls, *a, **k):
                o = object.__new__(cls)
                sdict.inst(o)
                return o
        va = V(CTX.fresh('va', I))
        ok, s = attempt('opening', lambda: S(F, alpha=va))
        if not ok:
            return
        a = sdict.strname('alpha')
        want[a] = va
        x = CTX.fresh('x', I)
        CTX.assume(Not(UNDERSCORE(x)))
        CTX.cover('keywords')
        CTX.roots = [s]
        CTX.loop_hints = [KeyInv()]
        expect(s, Name(x), want, 'keyword')
        ok, _ = attempt('save', s.save)
        if ok:
            ok, r = attempt('opening', C, F)
        if ok:
            expect(r, Name(x), want, 're-opened')
    explore(path)


def refused():
    """only arrays go into an array store; nothing is kept of a refused value"""
    def path():
        m, t, C, fs, F, full, V, kind_ = setup('ArrayStore', True)
        want = archive(fs, full, kind_)
        s = C(F)
        a = nm('a')
        try:
            a.set(s, Val(CTX.fresh('v', I)))
            CTX.prove('a value that is not an array is refused', z3.BoolVal(False))
            return
        except ValueError:
            pass
        CTX.cover('refused')
        expect(s, nm('x'), want, 'after a refused value')
        try:
            C().save()
            CTX.prove('saving without a name is refused', z3.BoolVal(False))
        except ValueError:
            pass
    explore(path)


TASKS = [('%s %s %s %s save %s, %s%s' % (c, s, 'bulk' if b else 'mixed', 'suffix' if x else 'bare', a, l, ' any file name' if y else ''),
          lambda c=c, s=s, b=b, x=x, a=a, l=l, y=y: history(c, s, b, x, a, l, y))
         for c in ('ArrayStore', 'AttrStore')
         for s, b, x, a, l, y in (('file', False, True, 'own', 'before save', 0), ('file', False, True, 'own', 'after save', 0),
                                  ('file', False, True, 'own', 're-opened', 1), ('file', True, False, 'own', 're-opened', 0),
                                  ('file', True, True, 'new', 're-opened', 0), 
                                  ('file', False, False, 'same', 're-opened', 1),
                                  ('empty', False, False, 'same', 're-opened', 1), ('empty', True, True, 'new+ext', 're-opened', 0))] + \
        [('%s contents %s%s' % (c, s, ' saved' if v else ''), lambda c=c, s=s, v=v: contents(c, s, v))
         for c in ('ArrayStore', 'AttrStore') for s, v in (('file', False), ('empty', False), ('file', True))] + \
        [('refused', refused), ('keywords', keywords)]
