ID, PROPERTY = "c03_locked_reversal", "C03"
FILE = "vectorbt/portfolio/nb.py"
OLD = """                elif not np.isnan(percent):
                    size_limit = min(percent * size, max_size_limit)
                    percent = np.nan
                else:
                    size_limit = min(size, max_size_limit)
"""
NEW = """                elif not np.isnan(percent):
                    size_limit = min(percent * size, max_size_limit)
                    percent = np.nan
                elif size > max_size_limit and exec_state.position > 0:
                    size_limit = min(size, max_size_limit + long_size)
                else:
                    size_limit = min(size, max_size_limit)
"""
NEEDS = "a cash-locking sell that reverses a long position into a short larger than the free cash allows"
BREAKS = "free cash becomes negative although cash locking is on"
DEMO = """
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
s = ProcessOrderState(cash=100., position=10., debt=0., free_cash=100., val_price=10., value=200., oidx=0, lidx=0)
e, r = nb.execute_order_nb(s, nb.order_nb(size=-200., price=10., lock_cash=True))
print(e, r)
assert e.free_cash >= -1e-9
"""
