ID, PROPERTY = "c01_value_reversal", "C01"
FILE = "vectorbt/portfolio/nb.py"
OLD = """    if is_filled and update_value:
        new_val_price, new_value = update_value_nb("""
NEW = """    if is_filled and update_value and order_result.size >= order.min_size and state.position * exec_state.position >= 0:
        new_val_price, new_value = update_value_nb("""
NEEDS = "an order with value update whose fill reverses the position"
BREAKS = "the value is not updated at that fill"
DEMO = """
import numpy as np
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
o, l = np.empty(1, order_dt), np.empty(1, log_dt)
s = ProcessOrderState(cash=100., position=10., debt=0., free_cash=100., val_price=8., value=180., oidx=0, lidx=0)
r, s = nb.process_order_nb(0, 0, 0, s, True, nb.order_nb(size=-15., price=10.), o, l)
print(r, s)
assert s.value == 180 + 150 + (-5 * 10 - 10 * 8) and s.val_price == 10
"""
