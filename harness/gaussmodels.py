"""signal models and data sets for C07, C08 (classes written out: the package reads their source)"""
import io, contextlib, math
import numpy as np
with contextlib.redirect_stdout(io.StringIO()):
    from inference.pie import *
    from inference.pie.param import *
    from inference.pie import gaussian as gaussmod
from piemodels import hnd
import inspect
_gsl = inspect.getsourcelines


def _fast(o):       # generated classes have no source; fail at once
    if getattr(o, '__name__', '') == 'PS':
        raise OSError('source code not available')
    return _gsl(o)


inspect.getsourcelines = _fast


class S1(SignalModel):
    a = RealParam(0.5, 'a')
    b = RealParam(0.75, 'b')
    c = RealParam(-.25, 'c')

    def signal(self, t):
        return self.a + self.b*t + self.c*t*t

    def log_prior(self):
        return -0.5*self.a**2 - abs(self.b)


class S1V(SignalModel):
    a = RealParam(0.5, 'a')
    b = RealParam(0.75, 'b')
    c = RealParam(-.25, 'c')

    def signals(self, t):
        t = np.asarray(t)
        return float(self.a) + float(self.b)*t + float(self.c)*t*t

    def log_prior(self):
        return -0.5*self.a**2 - abs(self.b)


class S1U(SignalModel):
    """set-up work in on_use, needed by signal"""
    a = RealParam(0.5, 'a')
    b = RealParam(0.75, 'b')
    c = RealParam(-.25, 'c')

    def on_use(self):
        self.co = (float(self.a), float(self.b), float(self.c))

    def signal(self, t):
        return self.co[0] + self.co[1]*t + self.co[2]*t*t

    def log_prior(self):
        return -0.5*self.a**2 - abs(self.b)


class S2(SignalModel):
    a = RealParam(0.5, 'a')
    b = RealParam(0.75, 'b')
    c = RealParam(-.25, 'c')

    def signal(self, x, y):
        return self.a + self.b*x + self.c*x*y

    def log_prior(self):
        return -0.5*self.a**2 - abs(self.b)


class S3(SignalModel):
    a = RealParam(0.5, 'a')
    b = RealParam(0.75, 'b')
    c = RealParam(-.25, 'c')

    def signal(self, x, y, z=1.):
        return self.a + self.b*x*z + self.c*x*y - z

    def log_prior(self):
        return -0.5*self.a**2 - abs(self.b)


class S4V(SignalModel):
    a = RealParam(0.5, 'a')
    b = RealParam(0.75, 'b')
    c = RealParam(-.25, 'c')

    def signals(self, t):
        t = np.asarray(t)
        return float(self.a) + float(self.b)*t[:,0]*t[:,2] + float(self.c)*t[:,1]*t[:,3]

    def log_prior(self):
        return -0.5*self.a**2 - abs(self.b)


class SN(SignalModel):
    a = RealParam(0.5, 'a')
    b = RealParam(0.75, 'b')
    c = RealParam(-.25, 'c')

    def signal(self, *x):
        return float(self.a) + float(self.b)*math.fsum((i + 1)*v for i, v in enumerate(x)) + float(self.c)*x[0]*x[-1] + .5*len(x)

    def log_prior(self):
        return -0.5*self.a**2 - abs(self.b)


LOCDIM = dict(S2=2, S3=3, S4V=4, SN=None)
MODELS = dict(SN=SN, S3=S3, S4V=S4V, S1=S1, S1V=S1V, S1U=S1U, S2=S2)
INF = dict(C=ChisqrInference, L=MaxLikeInference, B=BayesianInference)


def predict(model, p, l):
    a, b, c = p
    if model == 'S2':
        return a + b*l[0] + c*l[0]*l[1]
    if model == 'S3':
        return a + b*l[0]*l[2] + c*l[0]*l[1] - l[2]
    if model == 'S4V':
        return a + b*l[0]*l[2] + c*l[1]*l[3]
    if model == 'SN':
        return a + b*math.fsum((i + 1)*v for i, v in enumerate(l)) + c*l[0]*l[-1] + .5*len(l)
    return a + b*l + c*l*l


def predset(sets, form):
    """PredictorSet class with one SampledGaussian per data set (l, v, s)"""
    ns = {'param_names': []}
    for i, (l, v, s) in enumerate(sets):
        if form == 'three':
            args = (np.array(l), np.array(v), np.array(s))
        elif form == 'array':
            args = (np.array([list(r) for r in zip(l, v, s)]),)
        else:
            args = ([list(r) for r in zip(l, v, s)],)
        ns['d%d' % i] = SampledGaussian(*args)
    return type(PredictorSet)('PS', (PredictorSet,), ns)


def make(kind, model, ps):
    cls = type(INF[kind])('INF_' + kind + model, (INF[kind], MODELS[model], ps), {})
    with contextlib.redirect_stdout(io.StringIO()):
        return cls()
