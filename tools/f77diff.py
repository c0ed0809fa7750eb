"""Differential test of the Fortran translation: the translated text run with
plain numbers against the compiled routines (real f2py modules, staged build)."""
import sys, os, random, math
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if os.environ.get('F77DIFF') != '1':
    from engine import stage
    import subprocess, shutil
    top, pkg = stage.stage(['_gridquad', '_cbmlike', '_obsinfo'], os.environ.get('VC_REPO', '/repo'))
    env = stage.run_env(pkg)
    env.update(F77DIFF='1', F77PKG=pkg)
    r = subprocess.call([stage.VENV, os.path.abspath(__file__)] + sys.argv[1:], env=env)
    shutil.rmtree(top)
    sys.exit(r)
import numpy as np, importlib.util
spec = importlib.util.spec_from_file_location('f77', HERE + '/engine/f77.py')
f77 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(f77)
import inference.grid._gridquad as gq, inference.count._cbmlike as cb, inference.deriv._obsinfo as oi
pkg = os.environ['F77PKG'] + '/inference/'


def arr(v, ty, nd):
    a = np.asarray(v, float if ty == 'r' else int)
    assert a.ndim == nd
    return a


def fits(a, k, d):
    assert a.shape[k] >= d


hooks = dict(real=float, int=int, array=arr, fits=fits, shape=lambda a, k: a.shape[k], newarray=lambda sh, t: np.zeros(sh),
             callback=lambda f, c: (lambda n, x: float(f(x))))


def load(f, p=None):
    tr, sigs = f77.signatures(open(pkg + f).read(), open(pkg + p).read() if p else None)
    ns = f77.native()
    exec(tr.text, ns)
    ns.update(f77.native())
    return {n: f77.bind(tr, r, ns, hooks) for n, r in sigs.items()}


G, C, O = load('grid/_gridquad.f'), load('count/_cbmlike.f', 'count/_cbmlike.pyf'), load('deriv/_obsinfo.f', 'deriv/_obsinfo.pyf')
rnd = random.Random(int(os.environ.get('SEED', '1')))
n = 0


def same(a, b, what):
    global n
    n += 1
    a, b = (a if isinstance(a, tuple) else (a,)), (b if isinstance(b, tuple) else (b,))
    assert len(a) == len(b), what
    for x, y in zip(a, b):
        if not np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-9, atol=1e-10, equal_nan=True):
            print('DIFFERS', what, x, y)
            sys.exit(1)


for it in range(2000):
    a = np.array([rnd.choice([0., 1., 2., rnd.random() * 5]) for _ in range(rnd.randint(1, 9))])
    c = rnd.choice([0., 1., 2., rnd.random() * 5, -1.])
    same(gq.qgt1d(a, c), G['qgt1d'](a, c), ('qgt1d', a, c))
    b = np.array([[rnd.choice([0., 1., rnd.random() * 5]) for _ in range(rnd.randint(1, 1) + 3)] for _ in range(rnd.randint(1, 5))])
    same(gq.qgt2d(b, c), G['qgt2d'](b, c), ('qgt2d', b, c))
    x = np.cumsum(np.random.RandomState(it).rand(len(a)))
    same(gq.xvalues(x, a, c, 20), G['xvalues'](x, a, c, 20), ('xvalues', x, a, c))
    no, nf, to, tf = rnd.randint(0, 60), rnd.randint(0, 60), rnd.choice([1., .5, 3.7]), rnd.choice([1., 10., .3])
    same(cb.sigctp(no, to, nf, tf), C['sigctp'](no, to, nf, tf), ('sigctp', no, to, nf, tf))
    s = rnd.choice([0., rnd.random() * 50, 1e-3])
    cc = cb.sigctp(no, to, nf, tf)
    same(cb.psigc(s, to, cc), C['psigc'](s, to, cc), ('psigc', s, to))
    try:
        off = C['slml_offset'](no, to, nf, tf)
    except (ValueError, FloatingPointError):
        off = 0.
    if not math.isfinite(off):
        off = 0.
    else:
        same(cb.slml_offset(no, to, nf, tf), off, ('offset', no, to, nf, tf))
    cut = rnd.choice([0., 1e-5, .5])
    r = cb.slmlike(s, no, to, nf, tf, off, cut)
    if r[2] == 0 and np.isfinite(r[0]):
        same(r, C['slmlike'](s, no, to, nf, tf, off, cut), ('slmlike', s, no, to, nf, tf, off, cut))
    r = cb.slmliked(s, no, to, nf, tf, off, cut)
    if r[3] == 0 and np.isfinite(r[0]) and np.isfinite(r[1]):
        same(r, C['slmliked'](s, no, to, nf, tf, off, cut), ('slmliked', s, no, to, nf, tf, off, cut))
    m = rnd.randint(1, 3)
    H = np.diag([rnd.uniform(.5, 3) for _ in range(m)])
    mu = np.array([rnd.uniform(-2, 2) for _ in range(m)])
    f = lambda z: -.5 * (z - mu0).dot(H).dot(z - mu0) - .1 * ((z - mu0)**4).sum()
    mu0 = mu.copy()
    dp = np.array([rnd.uniform(.1, 2) for _ in range(m)])
    same(oi.ninfol(f, mu.copy(), 0., dp, 3), O['ninfol'](f, mu.copy(), 0., dp, 3), ('ninfol', mu))
    same(oi.pk_scales(f, mu.copy(), 0., 1., dp.copy(), 20, .01), O['pk_scales'](f, mu.copy(), 0., 1., dp.copy(), 20, .01), ('pk_scales', mu))
print('%d comparisons agree' % n)
