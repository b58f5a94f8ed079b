ID, PROPERTY = "c22_flex_wide", "C22"
FILE = "vectorbt/base/reshape_fns.py"
OLD = """        if flex_2d:
            i = 0
            if a.shape[0] == 1:
                col = 0
        else:
            col = 0
            if a.shape[0] == 1:
                i = 0
    else:
        if a.shape[0] == 1:
            i = 0
        if a.shape[1] == 1:
            col = 0
"""
NEW = """        if flex_2d:
            i = 0
            if a.shape[0] == 1:
                col = 0
        else:
            col = 0
            if a.shape[0] == 1:
                i = 0
    else:
        if a.shape[0] == 1:
            i = 0
        elif a.shape[1] == 1:
            col = 0
"""
NEEDS = "a two-dimensional argument with a single element read at a column other than zero"
BREAKS = "element (i, col) of the broadcast argument is read out of bounds or at the wrong place"
DEMO = """
import numpy as np
from vectorbt.base.reshape_fns import flex_choose_i_and_col_nb
r = flex_choose_i_and_col_nb(np.array([[7.]]))
print(r)
assert r == (0, 0)
"""
