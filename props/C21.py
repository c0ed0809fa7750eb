"""C21 two-dimensional cubature rules (integrate.cub2d).

Every rule is executed with an arbitrary integrand (a fresh value per call).
The obligations are: the result is a fixed linear combination of the integrand
at nodes that are the affine image of the rule's nodes, for every rectangle or
location and scale; and that combination integrates every monomial up to the
degree of the rule.  Linearity then gives every polynomial."""
from fractions import Fraction as Fr
import z3
from z3 import And
from engine import loader, lemmas
from engine.core import *
from engine.arr import NArr

LEVEL = 'proof'
FILES = ['integrate/cub2d.py', 'integrate/_cub2d_auto.py']
FUNCTIONS = ['integrate.cub2d.square1d4pt', 'integrate.cub2d.square3d4pt', 'integrate.cub2d.square7d12pt', 'integrate.cub2d.rect3d4pt',
             'integrate.cub2d.rect7d12pt', 'integrate.cub2d.NormWtCub2D.__init__', 'integrate.cub2d.NormWtCub2D.__call__', 'integrate._cub2d_auto.* (rule functions and tables)']
EXTS = ['_adapt', '_dcuhre']   # the package does not import without them
RUN_S = 5
TASK_S = 120
ERR = (IndexError, TypeError, AttributeError, NameError, KeyError, ZeroDivisionError, ValueError)
ASSUMPTIONS = ['sqrt(2) taken to 50 digits', 'real arithmetic for floating point: tabulated constants are exact rationals, exactness is to 1e-11 relative to the sum of the magnitudes',
               'a rule integrates every polynomial of a degree if it integrates the monomials (linearity in the integrand, which is an obligation)']
PI = Fr('3.14159265358979323846264338327950288419716939937510')
EPS = Fr(1, 10 ** 11)


def frac(t):
    t = z3.simplify(t)
    if not z3.is_rational_value(t):
        raise Unsupported('constant expected: %s' % str(t)[:80])
    return Fr(t.numerator_as_long(), t.denominator_as_long())


RT2 = z3.RealVal('1.4142135623730950488016887242096980785696718753769')


def root(t):
    """the square root of two as a number (to 50 digits)"""
    return z3.substitute(t, (lemmas.SQRT(z3.RealVal(2)), RT2))


def q(x):
    return z3.RealVal(str(x))


def execute(call):
    """run the rule on an arbitrary integrand: nodes, values, result"""
    nodes, vals = [], []

    def f(x, y):
        v = CTX.fresh('v', z3.RealSort())
        nodes.append((root(toreal(x)), root(toreal(y))))
        vals.append(v)
        return SReal(v)
    try:
        r = root(toreal(call(f)))
    except ERR as e:
        CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
        raise PathEnd()
    return nodes, vals, r


def rule(what, call, unit, image, factor, inside=None):
    """image(g, h): the node of the reference node (g, h); factor: the weight of
    the map; unit: values of the parameters that make the map the identity.
    Returns the reference rule [(g, h, w)]."""
    nodes, vals, r = execute(call)
    ref = []
    lin = z3.RealVal(0)
    base = z3.substitute(r, *unit) if unit else r
    zero = [(u, z3.RealVal(0)) for u in vals]
    CTX.prove(what + ': no constant part', z3.substitute(base, *zero) == 0)
    for k, ((x, y), v) in enumerate(zip(nodes, vals)):
        g, h = [frac(z3.substitute(t, *unit) if unit else t) for t in (x, y)]
        w = frac(z3.substitute(base, *[(u, z3.RealVal(int(u.eq(v)))) for u in vals]))
        gx, gy = image(q(g), q(h))
        CTX.prove(what + ': nodes are the affine image', And(x == gx, y == gy))
        if inside:
            CTX.prove(what + ': nodes inside', inside(x, y))
        lin = lin + q(w) * v
        ref.append((g, h, w))
    CTX.prove(what + ': linear combination of the values', z3.simplify(r - factor * lin, som=True) == 0)
    return ref


def moment(kind, m):
    """one-dimensional moment of x^m (Gaussian weight: in units of sqrt(pi))"""
    if m % 2:
        return Fr(0)
    if kind == 'square':
        return Fr(2, m + 1)
    r = Fr(1)
    for k in range(1, m, 2):
        r = r * (Fr(k, 2) if kind == 'plane' else k)
    return r


def exact(what, ref, kind, deg):
    unitn = PI if kind == 'plane' else Fr(1)
    for m in range(deg + 1):
        for n in range(deg + 1 - m):
            s = sum(w * g ** m * h ** n for g, h, w in ref)
            mag = sum(abs(w) * abs(g) ** m * abs(h) ** n for g, h, w in ref) + 1
            want = unitn * moment(kind, m) * moment(kind, n)
            CTX.prove('%s: integrates x^%d y^%d' % (what, m, n), And(q(s) - q(want) <= q(EPS * mag), q(want) - q(s) <= q(EPS * mag)))


def square():
    def path():
        m = loader.fresh_import('inference.integrate.cub2d')
        for name, deg in (('square1d4pt', 1), ('square3d4pt', 3), ('square7d12pt', 7)):
            f = getattr(m, name)
            ref = rule(name, f, [], lambda g, h: (g, h), 1, lambda x, y: And(x >= -1, x <= 1, y >= -1, y <= 1))
            exact(name, ref, 'square', deg)
        # using the rectangle rules leaves them as they are
        a = [execute(getattr(m, 'square7d12pt'))[0]]
        execute(lambda f: m.rect7d12pt(f, (0., 3.), (1., 5.)))
        execute(lambda f: m.rect3d4pt(f, (0., 3.), (1., 5.)))
        a.append(execute(getattr(m, 'square7d12pt'))[0])
        for (x, y), (x2, y2) in zip(*a):
            CTX.prove('rule unchanged', And(x == x2, y == y2))
    explore(path)


def rect(name, deg):
    def path():
        m = loader.fresh_import('inference.integrate.cub2d')
        xl, xu, yl, yu = z3.Reals('xl xu yl yu')
        xm, hx, ym, hy = (xl + xu) / 2, (xu - xl) / 2, (yl + yu) / 2, (yu - yl) / 2
        unit = [(xl, z3.RealVal(-1)), (xu, z3.RealVal(1)), (yl, z3.RealVal(-1)), (yu, z3.RealVal(1))]
        inside = lambda x, y: z3.Implies(And(xl < xu, yl < yu), And(xl < x, x < xu, yl < y, y < yu))
        xr, yr = (SReal(xl), SReal(xu)), (SReal(yl), SReal(yu))
        ref = rule(name, lambda f: getattr(m, name)(f, xr, yr), unit, lambda g, h: (xm + g * hx, ym + h * hy), hx * hy, inside)
        exact(name, ref, 'square', deg)
    explore(path)


def names(m):
    for k in m.rule_dict:
        deg = int(k.split('_')[-2])
        yield k, deg


def table(m, k):
    f, a, w = m.rule_dict[k]
    n = int(w.shape[0])
    return [toreal(a[i, j]) for i in range(n) for j in (0, 1)] + [toreal(w[i]) for i in range(n)]


def plane(part):
    def path():
        m = loader.fresh_import('inference.integrate.cub2d')
        for i, (k, deg) in enumerate(names(m)):
            if i % 3 == part:
                ref = rule(k, m.rule_dict[k][0], [], lambda g, h: (g, h), 1)
                exact(k, ref, 'plane', deg)
                t = table(m, k)
                CTX.prove(k + ': the table is the rule', And(*[a == b for (g, h, w), r in zip(ref, zip(t[0:2 * len(ref):2], t[1:2 * len(ref):2], t[2 * len(ref):])) for a, b in zip((q(g), q(h), q(w)), r)]))
                CTX.prove(k + ': as many nodes as tabulated', z3.BoolVal(len(t) == 3 * len(ref)))
    explore(path)


def normal(part):
    def path():
        m = loader.fresh_import('inference.integrate.cub2d')
        lx, ly, sx, sy = z3.Reals('lx ly sx sy')
        unit = [(lx, z3.RealVal(0)), (ly, z3.RealVal(0)), (sx, z3.RealVal(1)), (sy, z3.RealVal(1))]
        for i, (k, deg) in enumerate(names(m)):
            if i % 3 != part:
                continue
            t = table(m, k)
            try:
                ob = m.NormWtCub2D((SReal(lx), SReal(ly)), (SReal(sx), SReal(sy)), k)
                other = m.NormWtCub2D((SReal(lx + 1), SReal(ly)), (SReal(sy), SReal(sx)), k)
            except ERR as e:
                CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
                raise PathEnd()
            ref = rule('normal ' + k, ob, unit, lambda g, h: (lx + g * sx, ly + h * sy), 1)
            exact('normal ' + k, ref, 'normal', deg)
            t2 = table(m, k)
            CTX.prove(k + ': tabulated rule not altered', And(*[a == b for a, b in zip(t, t2)]))
            execute(other)
            again = execute(ob)[0]
            for (x, y), (g, h, w) in zip(again, ref):
                CTX.prove(k + ': other integrators and calls do not alter it', And(x == lx + q(g) * sx, y == ly + q(h) * sy))
            CTX.prove(k + ': same number of nodes', z3.BoolVal(len(again) == len(ref)))
        try:
            d = m.NormWtCub2D((SReal(lx), SReal(ly)), (SReal(sx), SReal(sy)))
        except ERR as e:
            CTX.prove('does not fail (%s)' % type(e).__name__, z3.BoolVal(False))
            raise PathEnd()
        if part == 0:
            exact('default normal rule', rule('default normal rule', d, unit, lambda g, h: (lx + g * sx, ly + h * sy), 1), 'normal', 7)
    explore(path)


TASKS = [('square rules', square), ('rectangle, degree 3', lambda: rect('rect3d4pt', 3)), ('rectangle, degree 7', lambda: rect('rect7d12pt', 7))]
TASKS += [('plane rules %d' % p, lambda p=p: plane(p)) for p in range(3)]
TASKS += [('normal weight %d' % p, lambda p=p: normal(p)) for p in range(3)]
