import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
def run(order, cash=100., position=0., debt=0., free=None, val=10., value=None):
    st = ProcessOrderState(cash, position, debt, cash - 2*debt if free is None else free, val, cash + position*val if value is None else value, 0, 0)
    return nb.execute_order_nb(st, order)

s, r = run(nb.order_nb(size=30., price=10., size_type=SizeType.Value), val=15.)
assert abs(r.size - 2) < 1e-9, r
