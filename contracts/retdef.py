"""The definition of a simple return, used by C11 and C18."""
from .common import *

R = "vectorbt.returns.nb:"


def simple_return(S, x, y):
    """Change from x to y over |x|; from zero: zero when y is zero, otherwise infinite with the sign of y."""
    x, y = S.f(x), S.f(y)
    if not S.symbolic:
        if x == 0:
            return 0.0 if y == 0 else (math.nan if math.isnan(y) else math.inf * (1 if y > 0 else -1))
        return (y - x) / abs(x)
    from pyvc.values import fmul
    zero = S.eq(x, 0.0)
    safe = S.ite(zero, S.f(1.0), x)
    q = S.div(y - x, safe)
    q = S.ite(S.lt(x, 0.0), -q, q)
    infv = S.ite(S.isnan(y), S.f(S.nan), S.ite(S.gt(y, 0.0), S.inf, -S.inf))
    return S.ite(zero, S.ite(S.eq(y, 0.0), S.f(0.0), infv), q)


Contract(R + "get_return_nb", dict(input_value=Float("fin|nan"), output_value=Float("fin|nan")), props="C11 C18", trials=400,
         functional=lambda S, a: simple_return(S, a.input_value, a.output_value))
