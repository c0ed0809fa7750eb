"""Shared set-up for the pie properties: an inference instance whose state is
symbolic, built from the real classes."""
import z3
from z3 import And, Or, Implies, Not, ToReal
from engine import loader
from engine.core import *

UNDEF, FIXED, STEPPING, VARYING = 0, 1, 2, 3


def mods():
    loader.fresh_import('inference.pie.realparam')
    import sys
    return sys.modules


def get(name):
    import importlib
    return importlib.import_module('inference.' + name)


class Log:
    """records listener calls"""
    _vc_state = True

    def __init__(self):
        self.status = []
        self.values = []

    def _on_param_status_change(self, h, old, new):
        self.status.append((h, old, new))

    def _on_param_value_change(self, p):
        self.values.append(p)


def handler(rp, status, bounded, stype=None, value=True):
    """a RealParamHandler in an arbitrary state with the given status;
    representation invariant: lo <= hi; stepping state well formed"""
    class PI:
        name, value_name, doc = 'x', '__x_val', 'd'
    own = Log()
    h = rp.RealParamHandler(PI(), own)
    h.status = status
    if bounded:
        h.bounded = 1
        h.lo, h.hi = real('lo'), real('hi')
        CTX.assume(h.lo <= h.hi)
    else:
        h.bounded = None
    if value and status != UNDEF:
        h._value = rp.RealParamValue(real('v0'), h)
        setattr(own, h.value_name, h._value)
    h.delta = real('delta0')
    if stype is not None:
        h.stype = stype
        h.slo, h.shi = real('slo'), real('shi')
        h.steps, h.step_num = integer('steps'), integer('step')
        CTX.assume(And(h.steps._z >= 2, h.step_num._z >= 0, h.step_num._z < h.steps._z))
        if stype == 1:
            h.fac = real('fac')
            CTX.assume(And(h.slo._z * h.shi._z > 0, h.fac._z > 0))
    return h, own


STEP_ATTRS = ('stype', 'slo', 'shi', 'steps', 'step_num', 'delta', 'fac', 'status', 'lo', 'hi', 'bounded', '_value')


def snap(h):
    d = h.__dict__
    return {k: d.get(k, '<absent>') for k in STEP_ATTRS}


def same_val(a, b):
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return z3.BoolVal(a == b if not isinstance(a, Sym) and not isinstance(b, Sym) else False)
    r = compare('==', a, b)
    return tobool(r)


def unchanged(h, before, what, attrs=STEP_ATTRS, skip=()):
    now = snap(h)
    for k in attrs:
        if k in skip:
            continue
        CTX.prove('%s: %s unchanged' % (what, k), same_val(before[k], now[k]))
