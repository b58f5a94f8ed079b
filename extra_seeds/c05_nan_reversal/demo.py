import os, sys
sys.path.insert(0, os.getcwd())
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
r = nb.signals_to_size_nb(-3., True, False, False, False, float("nan"), SizeType.Value, AccumulationMode.Disabled, 10.)
assert r[0] == 3., r
