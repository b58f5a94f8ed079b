import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
def run(order, cash=100., position=0., debt=0., free=None, val=10., value=None):
    st = ProcessOrderState(cash, position, debt, cash - 2*debt if free is None else free, val, cash + position*val if value is None else value, 0, 0)
    return nb.execute_order_nb(st, order)

s, r = run(nb.order_nb(size=np.inf, price=10., lock_cash=True), cash=50., free=80., value=50.)
assert s.cash >= 0, s
