ID, PROPERTY = "c02_min_after_gran", "C02"
FILE = "vectorbt/portfolio/nb.py"
OLD = """    # Adjust granularity
    if not np.isnan(size_granularity):
        size_limit = size_limit // size_granularity * size_granularity

    if is_close_nb(size_limit, 0):
        return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)

    # Check against minimum size
    if is_less_nb(size_limit, min_size):
        return exec_state, order_not_filled_nb(OrderStatus.Rejected, OrderStatusInfo.MinSizeNotReached)

    # Check against partial fill
    if np.isfinite(size)"""
NEW = """    # Check against minimum size
    if is_less_nb(size_limit, min_size):
        return exec_state, order_not_filled_nb(OrderStatus.Rejected, OrderStatusInfo.MinSizeNotReached)

    # Adjust granularity
    if not np.isnan(size_granularity):
        size_limit = size_limit // size_granularity * size_granularity

    if is_close_nb(size_limit, 0):
        return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)

    # Check against partial fill
    if np.isfinite(size)"""
NEEDS = "a sell with both a size granularity and a minimum size, where rounding down takes the size below the minimum"
BREAKS = "an order is filled below its minimum size"
DEMO = """
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
s = ProcessOrderState(cash=100., position=10., debt=0., free_cash=100., val_price=30., value=400., oidx=0, lidx=0)
e, r = nb.execute_order_nb(s, nb.order_nb(size=-2.7, price=30., size_granularity=1., min_size=2.5))
print(r)
assert r.status == OrderStatus.Rejected
"""
