import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
from vectorbt.utils.array_ import insert_argsort_nb
a, i = np.array([np.nan, 3., 1.]), np.arange(3)
insert_argsort_nb(a, i)
print(a, i)
assert i.tolist() == [2, 1, 0]
