import os, tempfile, shutil, io, contextlib
import numpy as np
from common import *
from inference.utils.rng import save_rng, restore_rng

NAMES = [None, None, 'st', 'a.1', 'x.2', 'd/s', 'with space']


def gen(g, i):
    names = [g.choice(NAMES) for _ in range(2)]
    ops = []
    for _ in range(g.int(2, 9)):
        k = g.choice(['save', 'save', 'restore', 'restore', 'draw', 'draw', 'seed'])
        ops.append([k, g.int(0, 1), g.int(1, 700), g.choice(['u', 'n', 'n', 'i', 'e', 'g']), g.bool(.5)])
    return dict(names=names, ops=ops)


def state():
    s = np.random.get_state()
    return s[0], s[1].tolist(), s[2], s[3], s[4]


def draw(k, n):
    r = np.random
    if k == 'u':
        r.rand(n)
    elif k == 'n':
        r.standard_normal(n)
    elif k == 'i':
        r.randint(0, 10**9, n)
    elif k == 'e':
        r.exponential(size=n)
    else:
        r.gamma(2.5, size=n)


def check(c):
    d = tempfile.mkdtemp(dir='.')
    cwd = os.getcwd()
    os.chdir(d)
    np.random.seed(12345)
    try:
        os.mkdir('d')
        with contextlib.redirect_stdout(io.StringIO()):
            body(c)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def body(c):
    disk = {}
    for op, w, n, k, notify in c['ops']:
        nm = c['names'][w]
        a = () if nm is None else (nm,)
        nm = nm or '.numpy-rng-state'
        s0 = state()
        if op == 'draw':
            draw(k, n)
        elif op == 'seed':
            np.random.seed(n)
        elif op == 'save' or nm not in disk:
            if op == 'save':
                save_rng(*a)
            else:
                restore_rng(*a, notify=notify)
            need(state() == s0, '%s (nothing to restore) disturbed the generator', op)
            if nm in disk:
                if nm + '.1' in disk:
                    disk[nm + '.2'] = disk[nm + '.1']
                disk[nm + '.1'] = disk[nm]
            disk[nm] = s0
        else:
            restore_rng(*a, notify=notify)
            need(state() == disk[nm], 'restored state of %r is not the saved one', nm)
            x = np.random.standard_normal(3).tolist() + np.random.rand(2).tolist()
            np.random.set_state(disk[nm])
            y = np.random.standard_normal(3).tolist() + np.random.rand(2).tolist()
            need(x == y, 'numbers drawn after the restore differ from those after the save')
        have = {os.path.normpath(os.path.join(r, f)) for r, _, fs in os.walk('.') for f in fs}
        need(have == set(disk), 'files %r, expected %r', sorted(have), sorted(disk))
    for nm in sorted(disk):
        restore_rng(nm, notify=False)
        need(state() == disk[nm], 'state under %r is not the one saved there', nm)
