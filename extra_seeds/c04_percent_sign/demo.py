import os, sys
sys.path.insert(0, os.getcwd())
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
s = ProcessOrderState(cash=100., position=-10., debt=50., free_cash=50., val_price=5., value=200., oidx=0, lidx=0)
e, r = nb.execute_order_nb(s, nb.order_nb(size=0.1, price=5., size_type=SizeType.TargetPercent))
print(e, r)
assert abs(e.position - 0.1 * 200 / 5) < 1e-9
