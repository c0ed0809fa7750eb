"""C07: chi-squared, log likelihood, scores, and the function given to optimisers."""
import z3
from z3 import And, Or, Implies, Not, ForAll, Int, Function, IntSort, RealSort
from engine import loader
from engine.core import *
from engine.arr import NArr, VList, zint
from engine.lemmas import mksum
from engine.heap import HObj, Inverter
from props.pielib import *
from props import pieheap
from props.gausslib import *

LEVEL = 'proof'
FILES = ['pie/gaussian.py', 'pie/chisqr.py', 'pie/maxlike.py', 'pie/bayes.py', 'pie/inference_base.py', 'pie/signalmodel.py', 'pie/predictor.py']
FUNCTIONS = ['pie.gaussian.SampledGaussian.__init__', 'pie.gaussian.SampledGaussian.set_data', 'pie.gaussian.SampledGaussianHandler.init',
             'pie.gaussian.SampledGaussianHandler.get_prdxns', 'pie.gaussian.SampledGaussianHandler.chisqr', 'pie.gaussian.SampledGaussianHandler.log_like',
             'pie.chisqr.ChisqrInference.score', 'pie.maxlike.MaxLikeInference.score', 'pie.bayes.BayesianInference.score',
             'pie.bayes.BayesianInference.logp', 'pie.bayes.BayesianInference._logp_func', 'pie.inference_base.Inference._score',
             'pie.inference_base.Inference._set_varying', 'pie.signalmodel.SignalModel._on_use', 'pie.signalmodel.SignalModel._on_param_value_change']
EXTS = ['_obsinfo']
ASSUMPTIONS = ['floats as real numbers', 'the signal (and log prior) is an arbitrary function of the current parameters and the location',
               'numpy arithmetic and sums follow their definitions', 'parameter set_value: contract proved in C02']
BOUNDED = ['data given as a list of rows: 1..3 rows; vector locations: dimensions 1 to 5']
RUN_S = 6
TASK_S = 90


def statistic(dim, vector, kind_, form):
    loader.fresh_import('inference.pie.gaussian')
    g = get('pie.gaussian')

    def path():
        n = integer('n')
        CTX.assume(n >= 1)
        if form == 'three':
            l, v, s = data(n, dim, kind_)
            args = (l, v, s)
            lf, vf, sf = l.frozen(), v.frozen(), s.frozen()
        elif form == 'column':
            l, (_, v, s) = NArr.fresh('locn', (n, 1), kind_), data(n, 1, kind_)
            args = (l, v, s)
            l2, vf, sf = l.frozen(), v.frozen(), s.frozen()
            lf = lambda j: l2((j[0], z3.IntVal(0)))
        else:
            a = NArr.fresh('all', (n, 3), kind_)
            af = a.frozen()
            col = lambda c: (lambda j: af((j[0], z3.IntVal(c))))
            lf, vf, sf = col(0), col(1), col(2)
            args = (a,)
            s = NArr.fromfn((n,), sf, kind_)
        positive(s, n)
        try:
            p = g.SampledGaussian(*args)
        except (TypeError, AttributeError, ValueError, g.DataError) as e:
            CTX.prove('data accepted', z3.BoolVal(False))
            return
        p.name = 'd'
        own = owner(dim, vector)
        h = g.SampledGaussianHandler(p, own)
        for rnd in range(2):
            t = 'first evaluation' if rnd == 0 else 'after a parameter change'
            term = lambda j: (lambda r: r * r)((tor(vf((j,))) - own.z(locn(lf, j, dim))) / tor(sf((j,))))
            chi = mksum(term, 0, n)
            try:
                c = h.chisqr()
            except (TypeError, ValueError, IndexError) as e:
                CTX.prove('chi-squared is computed', z3.BoolVal(False))
                return
            CTX.prove(t + ': chi-squared is the sum of squared weighted residuals', toreal(c) == chi)
            ll = h.log_like()
            CTX.prove(t + ': log likelihood is minus half of it', toreal(ll) == -chi / 2)
            CTX.prove(t + ': on_use is called before the signal is evaluated', z3.BoolVal(own.bad == 0))
            j = integer('jd', False)
            CTX.assume(And(j._z >= 0, j._z < toint(n)))
            CTX.prove(t + ': data not modified', And(*[x((j._z,) if x is not lf or dim == 1 else (j._z, z3.IntVal(0))) ==
                      y.zat((j._z,) if y.ndim == 1 else (j._z, z3.IntVal(0))) for x, y in ((lf, h.locns), (vf, h.vals), (sf, h.sigmas))]))
            own.change()
        CTX.cover('done')
    explore(path)


def rows(m):
    loader.fresh_import('inference.pie.gaussian')
    g = get('pie.gaussian')

    def path():
        rs = [(real('l%d' % i), real('v%d' % i), real('s%d' % i)) for i in range(m)]
        for r in rs:
            CTX.assume(r[2] > 0)
        p = g.SampledGaussian(VList(rs))
        p.name = 'd'
        own = owner(1, False)
        h = g.SampledGaussianHandler(p, own)
        chi = 0
        for l, v, s in rs:
            q = (v._z - own.z([l._z])) / s._z
            chi = chi + q * q
        CTX.prove('list of rows: chi-squared', toreal(h.chisqr()) == chi)
        CTX.prove('list of rows: log likelihood', toreal(h.log_like()) == -chi / 2)
        CTX.cover('done')
    explore(path)


def mismatch():
    loader.fresh_import('inference.pie.gaussian')
    g = get('pie.gaussian')

    def path():
        n, m, k = integer('n'), integer('m'), integer('k')
        CTX.assume(And(n._z >= 1, m._z >= 1, k._z >= 1, Or(n._z != m._z, m._z != k._z)))
        try:
            g.SampledGaussian(NArr.fresh('l', (n,)), NArr.fresh('v', (m,)), NArr.fresh('s', (k,)))
            CTX.prove('arrays of different lengths are refused', z3.BoolVal(False))
        except g.DataError:
            CTX.prove('arrays of different lengths are refused', z3.BoolVal(True))
        CTX.cover('done')
    explore(path)


CHI = Function('CHISQR', IntSort(), RealSort())
LL = Function('LOGLIKE', IntSort(), RealSort())


class Pred:
    """data set number z through the contract proved above"""

    def __init__(self, z):
        self.zz = z

    def chisqr(self):
        CTX.contracts.add('SampledGaussianHandler.chisqr')
        return SReal(CHI(self.zz))

    def log_like(self):
        CTX.contracts.add('SampledGaussianHandler.log_like')
        return SReal(LL(self.zz))


class PName(loader.NameRef):
    def __init__(self, z):
        self.zz = z

    def get(self, o):
        return Pred(self.zz)


def scores(which):
    loader.fresh_import('inference.pie.inference_base')
    mod = {'chisqr': 'pie.chisqr', 'maxlike': 'pie.maxlike', 'bayes': 'pie.bayes'}[which]
    cls = {'chisqr': 'ChisqrInference', 'maxlike': 'MaxLikeInference', 'bayes': 'BayesianInference'}[which]
    m, ib = get(mod), get('pie.inference_base')

    def path():
        K = getattr(m, cls)
        inf = object.__new__(K)
        n = integer('npred')
        CTX.assume(n >= 1)
        idf = CTX.fresh_fn('pred_id', IntSort(), IntSort())
        inf.predictor_names = VList.symbolic(n, lambda j: idf(j), 'i', lambda z: PName(z), lambda v: v.zz)
        if which == 'bayes':
            lp = real('log_prior')
            inf.log_prior = lambda: lp
        for rnd in range(2):
            r = inf.score()
            tot = mksum(lambda j: (CHI if which == 'chisqr' else LL)(idf(j)), 0, n)
            if which == 'bayes':
                tot = tot + lp._z
                CTX.prove('log posterior is the score', toreal(inf.logp()) == toreal(r))
            CTX.prove('score is the documented statistic, data sets added up (evaluation %d)' % (rnd + 1), toreal(r) == tot)
        CTX.prove('direction of optimisation', z3.BoolVal(K.extremize == (ib.minimize if which == 'chisqr' else ib.maximize)))
        CTX.cover('done')
    explore(path)


class VRef(pieheap.PRef):
    def get_value(self):
        return self.value

    def set_value(self, v):
        CTX.contracts.add('RealParamHandler.set_value')
        if v < self.lo or v > self.hi:
            raise get('pie.param').ParamRangeError('out of range')
        self.value = v

    def _unbounded_set_value(self, v):
        CTX.contracts.add('RealParamHandler._unbounded_set_value')
        self.uvalue = v


def curried(fn, drxn, unb):
    loader.fresh_import('inference.pie.inference_base')
    ib = get('pie.inference_base')
    by = get('pie.bayes')

    def path():
        from engine.heap import Heap, IdList
        heap = Heap(value='r', uvalue='r', lo='r', hi='r')
        n = CTX.fresh('n_varying', z3.IntSort())
        lst = IdList.make(heap, 'varying', n, VRef)
        for a in lst.axioms:
            CTX.assume(a)
        CTX.assume(n >= 1)
        args = NArr.fresh('args', (SInt(n),))
        af = args.frozen()
        f, p = lst.sym_f, lst.sym_p
        cls = by.BayesianInference if fn == '_logp_func' else ib.Inference
        inf = object.__new__(cls)
        inf.varying_params = lst
        inf.use_unbounded = unb
        inf.extremize = drxn
        sc = real('score')
        calls = []
        attr, other = ('uvalue', 'value') if unb else ('value', 'uvalue')

        def score():
            x = integer('xq', False)._z
            isin = And(p(x) >= 0, p(x) < n, f(p(x)) == x)
            CTX.prove('when the score is evaluated every varying parameter has its argument',
                      Implies(isin, heap.at(attr, x) == af((p(x),))))
            CTX.prove('no other parameter is set', Implies(Not(isin), heap.at(attr, x) == heap.old(attr, x)))
            CTX.prove('set through the coordinate in use only', heap.at(other, x) == heap.old(other, x))
            calls.append(1)
            return sc
        inf.score = score
        CTX.roots = [heap, lst]
        CTX.loop_hints = [Inverter(lst)]
        if fn == '_set_varying':
            inf._set_varying(*[args]) if False else None
        try:
            r = getattr(inf, fn)(args)
        except get('pie.param').ParamRangeError:
            CTX.prove('refused only when an argument is out of range: no score', z3.BoolVal(not calls and not unb))
            return
        CTX.prove('the score is evaluated', z3.BoolVal(len(calls) >= 1))
        neg = fn == '_score' and drxn == ib.maximize
        CTX.prove('value returned is %s' % ('minus the score' if neg else 'the score'), toreal(r) == (-sc._z if neg else sc._z))
        CTX.prove('argument not modified', args.zat((integer('ja', False)._z,)) == af((integer('ja', False)._z,)) if False else z3.BoolVal(args.store.log == []))
        CTX.cover('done')
    explore(path)


def onuse():
    loader.fresh_import('inference.pie.signalmodel')
    sm = get('pie.signalmodel')

    def path():
        log = []

        class M(sm.SignalModel):
            def on_use(self):
                log.append('use')

            def on_param_change(self, p):
                log.append(p)
        m = object.__new__(M)
        m.on_use_done = False
        m._on_use()
        m._on_param_value_change('p')
        m._on_use()
        CTX.prove('on_use is called for the use after a parameter change, the change is reported',
                  z3.BoolVal(log[0] == 'use' and log[-1] == 'use' and 'p' in log[1:-1]))
    explore(path)


TASKS = [('chi-squared and log likelihood: dim %d, %s, %s, %s' % (d, 'signals' if v else 'signal', 'integer data' if k == 'i' else 'float data', f),
          lambda d=d, v=v, k=k, f=f: statistic(d, v, k, f))
         for d, v, k, f in ((1, False, 'r', 'three'), (1, True, 'r', 'three'), (2, False, 'r', 'three'), (2, True, 'r', 'three'), (3, False, 'r', 'three'), (3, True, 'r', 'three'), (4, False, 'r', 'three'), (5, False, 'r', 'three'),
                            (1, False, 'i', 'three'), (1, False, 'r', 'column'), (1, False, 'r', 'array'), (1, True, 'r', 'array'))]
TASKS += [('list of %d rows' % m, lambda m=m: rows(m)) for m in (1, 2, 3)]
TASKS += [('length mismatch', mismatch), ('use notification', onuse)]
TASKS += [('score of ' + w, lambda w=w: scores(w)) for w in ('chisqr', 'maxlike', 'bayes')]
TASKS += [('%s %s %s' % (f, d, 'unbounded' if u else 'bounded'), lambda f=f, d=d, u=u: curried(f, d, u))
          for f in ('_score',) for d in ('max', 'min') for u in (False, True)]
TASKS += [('_logp_func', lambda: curried('_logp_func', 'max', False))]
