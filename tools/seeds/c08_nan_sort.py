ID, PROPERTY = "c08_nan_sort", "C08"
FILE = "vectorbt/utils/array_.py"
OLD = "        while i >= 0 and (A[i] > A_j or np.isnan(A[i])):"
NEW = "        while i >= 0 and (A[i] > A_j or (np.isnan(A[i]) and A_j < 0)):"
NEEDS = "automatic ordering where a NaN order value precedes a non-negative one"
BREAKS = "NaN values are not moved to the end, and the columns after them are not ordered"
DEMO = """
import numpy as np
from vectorbt.utils.array_ import insert_argsort_nb
a, i = np.array([np.nan, 3., 1.]), np.arange(3)
insert_argsort_nb(a, i)
print(a, i)
assert i.tolist() == [2, 1, 0]
"""
