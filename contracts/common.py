"""Shared spec vocabulary and the contracts of the numeric helper functions."""
from fractions import Fraction
import math
import numpy as np

from pyvc.contract import *
from pyvc.values import PINF, NINF, NAN, ZERO, F, tof

M = "vectorbt.utils.math_:"
ORDER_PROPS = "C01 C02 C03 C04"

REL = Fraction(1, 10 ** 9)
ABS = Fraction(1, 10 ** 12)


def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


def fl(kinds="fin|nan|+inf|-inf"):
    return Float(kinds)


# The tolerance arguments take their default values everywhere in the code under contract.
def is_close(S, a):
    return S.close(a.a, a.b)


def is_close_or_less(S, a):
    return S.or_(S.close(a.a, a.b), S.lt(a.a, a.b))


def is_less(S, a):
    return S.and_(S.not_(S.close(a.a, a.b)), S.lt(a.a, a.b))


def zero_sum(S, x, y):
    """The two numbers cancel up to the tolerance."""
    if S.split(S.or_(S.isnan(x), S.isnan(y), S.isinf(x), S.isinf(y))):
        return False
    same_sign = S.or_(S.and_(S.gt(x, 0.0), S.gt(y, 0.0)), S.and_(S.lt(x, 0.0), S.lt(y, 0.0)))
    return S.or_(S.and_(same_sign, S.close(x + y, 0.0)), S.and_(S.not_(same_sign), S.close(x, -y)))


def snap_add(S, x, y):
    """Sum, with results that cancel up to the tolerance replaced by zero."""
    x, y = S.f(x), S.f(y)
    return S.name(S.ite(zero_sum(S, x, y), S.f(0.0), x + y))


def _ab(kinds="fin|nan|+inf|-inf"):
    return dict(a=Float(kinds), b=Float(kinds))


Contract(M + "is_close_nb", _ab(), functional=is_close, props=ORDER_PROPS, trials=400)
Contract(M + "is_close_or_less_nb", _ab(), functional=is_close_or_less, props=ORDER_PROPS, trials=400)
Contract(M + "is_less_nb", _ab(), functional=is_less, props=ORDER_PROPS, trials=400)
Contract(M + "is_addition_zero_nb", _ab("fin"), functional=lambda S, a: zero_sum(S, a.a, a.b), props=ORDER_PROPS, trials=400)
Contract(M + "add_nb", _ab("fin|+inf|-inf"), functional=lambda S, a: snap_add(S, a.a, a.b), props=ORDER_PROPS, trials=400)
