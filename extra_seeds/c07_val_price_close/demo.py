import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np, vectorbt as vbt, pandas as pd
out = []
for last in (12., 30.):
    pf = vbt.Portfolio.from_orders(pd.Series([10., last]), size=pd.Series([np.nan, 50.]), size_type="value", price=pd.Series([10., 10.]), val_price=np.inf)
    out.append(pf.orders.records_arr["size"][0])
assert out[0] == out[1] == 5., out
