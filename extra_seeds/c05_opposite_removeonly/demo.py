import os, sys
sys.path.insert(0, os.getcwd())
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
r = nb.resolve_opposite_entry_nb(-3., True, False, False, False, OppositeEntryMode.Reverse, AccumulationMode.RemoveOnly)
assert r[-1] == AccumulationMode.Disabled, r
