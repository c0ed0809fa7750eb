import os, tempfile, shutil
import numpy as np
from common import *
from inference.utils.ioutils import ArrayStore, AttrStore

NAMES = ['a', 'b', 'x1', 'data', 'arr_0', 'fname', 'files', 'archive', 'new', 'npz', 'args', 'kwds', 'key', 'pulled']
FNAMES = ['st', 'a.b', 'd/s', 'with space', 'x.npz.y', 'npz', 'pkl']


def arr(g):
    k = g.choice(['i', 'f', 'f', 'z', '2', '0', 's', 'b', 'n'])
    if k == 'i':
        return ['int64', [g.int(-9, 9) for _ in range(g.int(1, 4))]]
    if k == 'z':
        return ['float64', []]
    if k == '2':
        return ['float64', [[g.real(), g.real()] for _ in range(2)]]
    if k == '0':
        return ['float64', g.real()]
    if k == 's':
        return ['U4', ['ab', 'c']]
    if k == 'b':
        return ['bool', [True, False, g.bool()]]
    if k == 'n':
        return ['float32', [0.5, 1.5]]
    return ['float64', g.reals(g.int(1, 5))]


def gen(g, i):
    cls = g.choice(['ArrayStore', 'AttrStore'])
    pool = g.sample(NAMES, 5)
    ops = []
    for _ in range(g.int(3, 14)):
        k = g.choice(['set', 'set', 'set', 'get', 'get', 'contents', 'save', 'open', 'open', 'saveas'])
        v = arr(g)
        if cls == 'AttrStore' and g.bool(.6):
            v = ['py', g.choice([None, 0, 42, 'text', [1, [2, 3]], {'k': 1.5}, False, ''])]
        ops.append([k, g.choice(pool), v, g.bool(), g.int(0, 1)])
    kw = {n: arr(g) for n in pool[:2] if n != 'fname'} if cls == 'AttrStore' and g.bool(.3) else {}
    return dict(cls=cls, files=g.sample(FNAMES, 2), ops=ops, kw=kw)


CASES = [dict(cls='ArrayStore', files=['st', 'b'], ops=[['set', 'file', ['float64', [1.]], True, 0], ['saveas', '', None, True, 0]], kw={}),
         dict(cls='AttrStore', files=['st', 'b'], ops=[['set', 'file', ['float64', [1.]], True, 0], ['saveas', '', None, True, 0],
                                                       ['open', '', None, True, 0], ['get', 'file', None, True, 0]], kw={})]


def val(v):
    return v[1] if v[0] == 'py' else np.array(v[1], dtype=v[0])


def eq(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
    return type(a) is type(b) and a == b


def check(c):
    d = tempfile.mkdtemp(dir='.')
    cwd = os.getcwd()
    os.chdir(d)
    try:
        os.mkdir('d')
        body(c)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def look(s, want, tag):
    for n in NAMES + ['file', 'nothere']:
        try:
            v = getattr(s, n)
        except AttributeError:
            need(n not in want, '%s: stored name %r is an attribute error', tag, n)
            continue
        need(n in want, '%s: name %r never stored gives %r', tag, n, v)
        need(eq(v, want[n]), '%s: %r is %r, stored was %r', tag, n, v, want[n])


def body(c):
    C = ArrayStore if c['cls'] == 'ArrayStore' else AttrStore
    ext = '.npz' if C is ArrayStore else '.pkl'
    disk = {}
    s = C(**{k: val(v) for k, v in c['kw'].items()})
    want = {k: val(v) for k, v in c['kw'].items()}
    own = None
    for op, n, v, suf, w in c['ops']:
        f = c['files'][w] + (ext if suf else '')
        full = c['files'][w] + ext
        if op == 'set':
            setattr(s, n, val(v))
            want[n] = val(v)
        elif op == 'get':
            try:
                x = getattr(s, n)
                need(n in want and eq(x, want[n]), 'reading %r gives %r', n, x)
            except AttributeError:
                need(n not in want, 'stored name %r is an attribute error', n)
        elif op == 'contents':
            l = list(s.contents())
            need(sorted(l) == sorted(want), 'contents() %r, stored are %r', l, sorted(want))
        elif op == 'open':
            if full in disk:
                s, want, own = C(f), dict(disk[full]), full
        else:
            if op == 'save' and own is None:
                try:
                    s.save()
                except ValueError:
                    continue
                raise Fail('saving without a name is not refused')
            try:
                if op == 'save':
                    s.save()
                    full = own
                else:
                    s.save(f)
            except TypeError as e:
                if 'file' in want and C is ArrayStore:
                    raise Fail("an array stored under the name 'file' cannot be saved (numpy.savez parameter): %s" % e, 'C26-file')
                raise
            disk[full] = dict(want)
            need(os.path.exists(full), 'no file %r after saving', full)
        if c['cls'] == 'ArrayStore' and op == 'set' and w:
            try:
                setattr(s, 'scalar', 3.)
                raise Fail('a value that is not an array is accepted')
            except ValueError:
                pass
    look(s, want, 'at the end')
    for f in sorted(disk):
        look(C(f), disk[f], 're-opened')
        r = C(f[:-4])
        l = list(r.contents())
        need(sorted(l) == sorted(disk[f]), 'contents() of %r: %r, saved were %r', f, l, sorted(disk[f]))
        look(r, disk[f], 're-opened without suffix')
