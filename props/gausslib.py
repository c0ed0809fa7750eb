"""Gaussian data set with any number of data, any signal function."""
import z3
from z3 import And, Or, Implies, Not, ForAll, Int, Function, IntSort, RealSort
from engine import loader
from engine.core import *
from engine.arr import NArr, zint
from props.pielib import get

R, I = RealSort(), IntSort()


def owner(dim=1, vector=False):
    """instance of a user model class on the real SignalModel: signal is
    SIG(theta, locn...), an arbitrary function of the parameter state theta"""
    sm = get('pie.signalmodel')
    o = object.__new__(type('UserModel', (Model, sm.SignalModel), {'_vc_state': True}))
    o.dim, o.vector = dim, vector
    o.sig = Function('SIG%d' % dim, *([I] + [R] * dim + [R]))
    o.theta = integer('theta')
    o.ready = None          # parameter state for which on_use was last called
    o.bad = 0
    o.on_use_done = False
    return o


class Model:
    def on_use(self):
        self.ready = self.theta

    def change(self):
        self.theta = integer('theta2')
        self._on_param_value_change('p')

    def pred(self, *l):
        return SReal(self.sig(self.theta._z, *[toreal(x) for x in l]))

    def signal(self, *l):
        if self.ready is not self.theta:
            self.bad = 1
        if len(l) != self.dim:
            raise TypeError('signal() takes %d arguments' % self.dim)
        return self.pred(*l)

    def signals(self, a):
        if not self.vector:
            raise NotImplementedError
        if self.ready is not self.theta:
            self.bad = 1
        if not isinstance(a, NArr):
            raise Unsupported('signals of a non-array')
        f = a.frozen()
        if self.dim == 1:
            return NArr.fromfn((a.shp[0],), lambda j: self.sig(self.theta._z, z3.ToReal(f(j)) if a.store.k == 'i' else f(j)))
        return NArr.fromfn((a.shp[0],), lambda j: self.sig(self.theta._z, *[f((j[0], z3.IntVal(i))) for i in range(self.dim)]))

    def z(self, l):
        """prediction term for location terms l (a list)"""
        return self.sig(self.theta._z, *l)


def data(n, dim=1, k='r', pre=''):
    l = NArr.fresh(pre + 'locn', (n,) if dim == 1 else (n, dim), k)
    v = NArr.fresh(pre + 'val', (n,), k)
    s = NArr.fresh(pre + 'sigma', (n,), k)
    return l, v, s


def positive(s, n):
    j = Int('j!s')
    f = s.frozen()
    CTX.assume(ForAll([j], Implies(And(0 <= j, j < toint(n)), f((j,)) > 0), patterns=[f((j,))]))


def tor(z):
    return z3.ToReal(z) if z.sort() == I else z


def locn(f, j, dim):
    return [tor(f((j,)))] if dim == 1 else [tor(f((j, z3.IntVal(i)))) for i in range(dim)]
