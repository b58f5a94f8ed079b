import os, sys
sys.path.insert(0, os.getcwd())
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
s = ProcessOrderState(cash=100., position=10., debt=0., free_cash=100., val_price=30., value=400., oidx=0, lidx=0)
e, r = nb.execute_order_nb(s, nb.order_nb(size=-2.7, price=30., size_granularity=1., min_size=2.5))
print(r)
assert r.status == OrderStatus.Rejected
