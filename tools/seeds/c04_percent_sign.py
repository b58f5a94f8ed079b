ID, PROPERTY = "c04_percent_sign", "C04"
FILE = "vectorbt/portfolio/nb.py"
OLD = """        if value <= 0:
            return exec_state, order_not_filled_nb(OrderStatus.Rejected, OrderStatusInfo.ValueZeroNeg)

        order_size *= value
"""
NEW = """        if value <= 0:
            return exec_state, order_not_filled_nb(OrderStatus.Rejected, OrderStatusInfo.ValueZeroNeg)

        order_size *= value if debt == 0 else min(value, cash)
"""
NEEDS = "a target percentage order while a short position is open and the current value is above the cash (a long-short group sharing cash)"
BREAKS = "the target is a percentage of something other than the current value"
DEMO = """
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
s = ProcessOrderState(cash=100., position=-10., debt=50., free_cash=50., val_price=5., value=200., oidx=0, lidx=0)
e, r = nb.execute_order_nb(s, nb.order_nb(size=0.1, price=5., size_type=SizeType.TargetPercent))
print(e, r)
assert abs(e.position - 0.1 * 200 / 5) < 1e-9
"""
