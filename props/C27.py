"""C27 saved random-number state: round trip, frame and backups over the model
file system and an arbitrary generator state."""
import z3
from z3 import And, Or, Implies, Not
from engine import loader, fsmodel, shims
from engine.core import *
from engine.fsmodel import SStr, FS, zs

LEVEL = 'proof'
FILES = ['utils/rng.py']
FUNCTIONS = ['utils.rng.save_rng', 'utils.rng.restore_rng']
EXTS = []
ASSUMPTIONS = ['numpy.random.get_state/set_state read and replace exactly (id, key, pos, has_gauss, cached_gaussian), a 3-tuple '
               'clearing the cached deviate, and that state determines all later draws; pickle.load gives back what '
               'pickle.dump wrote (binary files); file-system model of engine/fsmodel.py']
RUN_S = 4
TASK_S = 60


def setup(named=True, id='MT19937'):
    m = loader.fresh_import('inference.utils.rng')
    fs = fsmodel.use(FS())
    rng = shims.RandomModel.rng = shims.RNG(id)
    F = SStr(z3.String('F')) if named else '.numpy-rng-state'
    if named:
        CTX.assume(z3.Length(F._z) > 0)
    return m, fs, rng, F


def files(fs, F, ex0, ct0):
    f, b, bb = zs(F), zs(F + '.1'), zs(F + '.2')
    G = z3.String('G')
    CTX.prove('no other file is touched', Implies(And(G != f, G != b, G != bb),
                                                  And(fs.ex(G) == ex0(G), Implies(ex0(G), fs.ct(G) == ct0(G)))))
    CTX.prove('the previous saved state is kept under .1', Implies(ex0(f), And(fs.ex(b), fs.ct(b) == ct0(f))))
    CTX.prove('the one before it is kept under .2', Implies(And(ex0(f), ex0(b)), And(fs.ex(bb), fs.ct(bb) == ct0(b))))
    CTX.prove('nothing to back up: backups untouched',
              Implies(Not(ex0(f)), And(fs.ex(b) == ex0(b), fs.ex(bb) == ex0(bb), Implies(ex0(b), fs.ct(b) == ct0(b)),
                                       Implies(ex0(bb), fs.ct(bb) == ct0(bb)))))


def call(what, f, *a, **k):
    try:
        f(*a, **k)
        return True
    except (TypeError, ValueError, OSError, LookupError, RuntimeError, NameError) as e:
        CTX.prove('%s does not fail (%s)' % (what, type(e).__name__), z3.BoolVal(False))
        return False


def save(named):
    def path():
        m, fs, rng, F = setup(named)
        a = [F] if named else []
        ex0, ct0 = fs.frozen()
        st = rng.snap()
        if not call('save_rng', m.save_rng, *a):
            return
        CTX.cover('save')
        CTX.prove('saving does not disturb the generator', rng.same(st))
        CTX.prove('the file exists', fs.ex(zs(F)))
        files(fs, F, ex0, ct0)
    explore(path)


def roundtrip(named, notify):
    def path():
        m, fs, rng, F = setup(named)
        a = [F] if named else []
        st = rng.snap()
        if not call('save_rng', m.save_rng, *a):
            return
        rng.draw()
        ex1, ct1 = fs.frozen()
        k = {} if notify is None else dict(notify=notify)
        if not call('restore_rng', m.restore_rng, *a, **k):
            return
        CTX.cover('restore')
        CTX.prove('the restored state is the saved one', rng.same(st))
        G = z3.String('G')
        CTX.prove('restoring touches no file', And(fs.ex(G) == ex1(G), Implies(ex1(G), fs.ct(G) == ct1(G))))
        rng.draw()
        if not call('restore_rng again', m.restore_rng, *a, **k):
            return
        CTX.prove('restoring again gives the same state', rng.same(st))
    explore(path)


def history():
    """save, draw, save elsewhere, draw, restore the first"""
    def path():
        m, fs, rng, F = setup()
        G = SStr(z3.String('G'))
        CTX.assume([z3.Length(G._z) > 0] + [G._z != zs(F + s) for s in ('', '.1', '.2')] +
                   [F._z != zs(G + s) for s in ('', '.1', '.2')])
        st = rng.snap()
        if not call('save_rng', m.save_rng, F):
            return
        rng.draw()
        st2 = rng.snap()
        if not call('save_rng', m.save_rng, G):
            return
        rng.draw()
        if not call('restore_rng', m.restore_rng, F, notify=False):
            return
        CTX.cover('history')
        CTX.prove('restore from the first file', rng.same(st))
        if not call('restore_rng', m.restore_rng, G, notify=False):
            return
        CTX.prove('restore from the second file', rng.same(st2))
        rng.draw()
        st3 = rng.snap()
        if not call('save_rng', m.save_rng, F):
            return
        rng.draw()
        if not call('restore_rng', m.restore_rng, F, notify=False):
            return
        CTX.prove('the last save under a name wins', rng.same(st3))
        if not call('restore_rng', m.restore_rng, F + '.1', notify=False):
            return
        CTX.prove('the previous save is under .1', rng.same(st))
    explore(path)


def missing():
    """no accessible file: the state is kept, and saved"""
    def path():
        m, fs, rng, F = setup()
        acc = CTX.fresh_fn('acc', z3.StringSort(), z3.BoolSort())
        fs.access = acc
        ex0, ct0 = fs.frozen()
        CTX.assume(Not(And(ex0(zs(F)), acc(zs(F)))))
        st = rng.snap()
        if not call('restore_rng without a file', m.restore_rng, F):
            return
        CTX.cover('missing')
        CTX.prove('the generator is left alone', rng.same(st))
        files(fs, F, ex0, ct0)
        rng.draw()
        fs.access = lambda n: z3.BoolVal(True)
        if not call('restore_rng', m.restore_rng, F, notify=False):
            return
        CTX.prove('the state then saved is restored', rng.same(st))
    explore(path)


def refused():
    def path():
        m, fs, rng, F = setup(id='OTHER')
        ex0, ct0 = fs.frozen()
        try:
            m.save_rng(F)
            CTX.prove('an unknown generator is refused', z3.BoolVal(False))
            return
        except RuntimeError:
            pass
        G = z3.String('G')
        CTX.cover('refused')
        CTX.prove('refused save touches no file', And(fs.ex(G) == ex0(G), Implies(ex0(G), fs.ct(G) == ct0(G))))
        rng = shims.RandomModel.rng = shims.RNG()
        st = rng.snap()
        fs.write_obj(F, ('pickle', ('OTHER', rng.snap()[1:])))
        try:
            m.restore_rng(F)
            CTX.prove('a foreign state file is refused', z3.BoolVal(False))
        except ValueError:
            CTX.prove('refused restore leaves the generator alone', rng.same(st))
    explore(path)


TASKS = [('save', lambda: save(True)), ('save default name', lambda: save(False)),
         ('round trip', lambda: roundtrip(True, None)), ('round trip default name', lambda: roundtrip(False, None)),
         ('round trip silent', lambda: roundtrip(True, False)), ('history', history), ('no file', missing), ('refused', refused)]
