"""C25 backup / safe_open: frame + crash-point invariant over a model file
system, for every file name, every initial directory, every other file."""
import z3
from z3 import And, Or, Implies, Not
from engine import loader, fsmodel
from engine.core import *
from engine.fsmodel import SStr, FS, zs

LEVEL = 'proof'
FILES = ['utils/ioutils.py']
FUNCTIONS = ['utils.ioutils.backup', 'utils.ioutils.safe_open']
EXTS = []
ASSUMPTIONS = ['os.rename is atomic and replaces the target; os.path.exists has no side effect (file-system model, '
               'engine/fsmodel.py); no other process changes the directory meanwhile; names are files, not directories']
RUN_S = 4
TASK_S = 60


def setup():
    m = loader.fresh_import('inference.utils.ioutils')
    fs = fsmodel.use(FS())
    F = SStr(z3.String('F'))
    CTX.assume(z3.Length(F._z) > 0)
    ex0, ct0 = fs.frozen()
    f, b, bb = F._z, (F + '%')._z, (F + '%%')._z

    def alive(c, names):
        return Or(*[And(fs.ex(n), fs.ct(n) == c) for n in names])

    def safe(op):
        CTX.prove('crash after %s: contents of the file still exist' % op,
                  Implies(ex0(f), alive(ct0(f), (f, b, bb))))
        CTX.prove('crash after %s: contents of the first backup still exist' % op,
                  Implies(ex0(b), alive(ct0(b), (b, bb))))
        CTX.prove('crash after %s: second backup lost only when the first replaces it' % op,
                  Implies(And(ex0(bb), Not(And(ex0(f), ex0(b)))), And(fs.ex(bb), fs.ct(bb) == ct0(bb))))
    fs.after = safe
    return m, fs, F, ex0, ct0, f, b, bb, safe


def post(fs, ex0, ct0, f, b, bb, opened):
    G = z3.String('G')
    CTX.prove('no other file is touched', Implies(And(G != f, G != b, G != bb),
                                                  And(fs.ex(G) == ex0(G), Implies(ex0(G), fs.ct(G) == ct0(G)))))
    CTX.prove('file is saved as first backup', Implies(ex0(f), And(fs.ex(b), fs.ct(b) == ct0(f))))
    CTX.prove('first backup is saved as second backup', Implies(And(ex0(f), ex0(b)), And(fs.ex(bb), fs.ct(bb) == ct0(b))))
    CTX.prove('nothing to back up: backups untouched',
              Implies(Not(ex0(f)), And(fs.ex(b) == ex0(b), fs.ex(bb) == ex0(bb),
                                       Implies(ex0(b), fs.ct(b) == ct0(b)), Implies(ex0(bb), fs.ct(bb) == ct0(bb)))))
    if not opened:
        CTX.prove('the name is free afterwards', Not(fs.ex(f)))


def backup():
    def path():
        m, fs, F, ex0, ct0, f, b, bb, safe = setup()
        try:
            m.backup(F)
        except OSError:
            CTX.prove('backup does not fail', z3.BoolVal(False))
            return
        CTX.cover('backup')
        safe('return')
        post(fs, ex0, ct0, f, b, bb, False)
    explore(path)


def sopen(kind_):
    def path():
        m, fs, F, ex0, ct0, f, b, bb, safe = setup()
        got = []
        if kind_ == 'opener':
            def opener(*a, **k):
                got.append((a, k))
                return 'OBJ'
            r = m.safe_open(F, False, opener, 'mode', x=3)
            CTX.prove('opener gets the name and the additional arguments',
                      And(z3.BoolVal(len(got) == 1 and len(got[0][0]) == 2 and got[0][0][1] == 'mode'
                                     and got[0][1] == {'x': 3}), zs(got[0][0][0]) == f))
            CTX.prove('the opened object is returned', z3.BoolVal(r == 'OBJ'))
            got.clear()
            r = m.safe_open(F, opener=opener, x=4)
            CTX.prove('opener gets keyword arguments alone', z3.BoolVal(len(got) == 1 and len(got[0][0]) == 1
                                                                        and got[0][1] == {'x': 4}))
            return
        r = m.safe_open(F) if kind_ == 'text' else m.safe_open(F, True) if kind_ == 'bin' else m.safe_open(F, 'b')
        CTX.cover('safe_open')
        safe('return')
        post(fs, ex0, ct0, f, b, bb, True)
        CTX.prove('a new empty file is open under the requested name',
                  And(fs.ex(f), fs.ct(f) < -1000, zs(r.name) == f))
        CTX.prove('open for writing in the requested mode',
                  z3.BoolVal(not r.closed and 'w' in r.mode and ('b' in r.mode) == (kind_ != 'text')))
    explore(path)


def repeated():
    """two successive safe_open: only the two-generations-old third is dropped"""
    def path():
        m, fs, F, ex0, ct0, f, b, bb, safe = setup()
        fs.after = None
        r = m.safe_open(F)
        fs.write_obj(F, 'one')
        c1 = fs.ct(f)
        r = m.safe_open(F)
        CTX.cover('twice')
        CTX.prove('second use: previous contents are first backup', And(fs.ex(b), fs.ct(b) == c1))
        CTX.prove('second use: original contents are second backup', Implies(ex0(f), And(fs.ex(bb), fs.ct(bb) == ct0(f))))
    explore(path)


TASKS = [('backup', backup), ('safe_open text', lambda: sopen('text')), ('safe_open binary', lambda: sopen('bin')),
         ('safe_open b', lambda: sopen('b')), ('safe_open opener', lambda: sopen('opener')), ('repeated', repeated)]
