"""models with 1..6 parameters (written out: the package reads their source)"""
import io, contextlib, math
import numpy as np
with contextlib.redirect_stdout(io.StringIO()):
    from inference.pie import *
    from inference.pie.param import *
    from inference.pie.inference_base import InferenceError
    from inference.pie.signalmodel import StopStepping

UNDEF, FIXED, STEPPING, VARYING = 0, 1, 2, 3
ABC = "abcdef"
# reading the source of a class is slow: remember it (pure function of the file)
import functools, inspect
inspect.getsourcelines = functools.lru_cache(None)(inspect.getsourcelines)

class M1(SignalModel):
    a = RealParam(0.5, 'parameter a')

    def signal(self, t):
        return self.a*t**0


class M2(SignalModel):
    a = RealParam(0.5, 'parameter a')
    b = RealParam(0.75, 'parameter b')

    def signal(self, t):
        return self.a*t**0 + self.b*t**1


class M3(SignalModel):
    a = RealParam(0.5, 'parameter a')
    b = RealParam(0.75, 'parameter b')
    c = RealParam(1.0, 'parameter c')

    def signal(self, t):
        return self.a*t**0 + self.b*t**1 + self.c*t**2


class M4(SignalModel):
    a = RealParam(0.5, 'parameter a')
    b = RealParam(0.75, 'parameter b')
    c = RealParam(1.0, 'parameter c')
    d = RealParam(1.25, 'parameter d')

    def signal(self, t):
        return self.a*t**0 + self.b*t**1 + self.c*t**2 + self.d*t**3


class M5(SignalModel):
    a = RealParam(0.5, 'parameter a')
    b = RealParam(0.75, 'parameter b')
    c = RealParam(1.0, 'parameter c')
    d = RealParam(1.25, 'parameter d')
    e = RealParam(1.5, 'parameter e')

    def signal(self, t):
        return self.a*t**0 + self.b*t**1 + self.c*t**2 + self.d*t**3 + self.e*t**4


class M6(SignalModel):
    a = RealParam(0.5, 'parameter a')
    b = RealParam(0.75, 'parameter b')
    c = RealParam(1.0, 'parameter c')
    d = RealParam(1.25, 'parameter d')
    e = RealParam(1.5, 'parameter e')
    f = RealParam(1.75, 'parameter f')

    def signal(self, t):
        return self.a*t**0 + self.b*t**1 + self.c*t**2 + self.d*t**3 + self.e*t**4 + self.f*t**5



with contextlib.redirect_stdout(io.StringIO()):
    class P1(PredictorSet):
        d1 = SampledGaussian(np.array([0., 1., 2.]), np.array([1., 2., 0.5]), np.array([1., .5, 2.]))


class IL1(MaxLikeInference, M1, P1):
    pass


class IC1(ChisqrInference, M1, P1):
    pass


class IL2(MaxLikeInference, M2, P1):
    pass


class IC2(ChisqrInference, M2, P1):
    pass


class IL3(MaxLikeInference, M3, P1):
    pass


class IC3(ChisqrInference, M3, P1):
    pass


class IL4(MaxLikeInference, M4, P1):
    pass


class IC4(ChisqrInference, M4, P1):
    pass


class IL5(MaxLikeInference, M5, P1):
    pass


class IC5(ChisqrInference, M5, P1):
    pass


class IL6(MaxLikeInference, M6, P1):
    pass


class IC6(ChisqrInference, M6, P1):
    pass



def inference(n, kind='L'):
    with contextlib.redirect_stdout(io.StringIO()):
        return globals()['I%s%d' % (kind, n)]()


def hnd(inf, name):
    """handler of a parameter (touching it first)"""
    return getattr(inf, name).handler
