ID, PROPERTY = "c23_groups", "C23"
FILE = "vectorbt/base/column_grouper.py"
OLD = """        if cur_group < last_group:
            raise ValueError("Groups must be coherent and sorted (such as [0, 0, 1, 2, 2, ...])")
        if cur_group != last_group:
            if last_group != -1:
"""
NEW = """        if cur_group < last_group and cur_group != groups[0]:
            raise ValueError("Groups must be coherent and sorted (such as [0, 0, 1, 2, 2, ...])")
        if cur_group != last_group:
            if last_group != -1:
"""
NEEDS = "an incoherent grouping that returns to its first group"
BREAKS = "the incoherent grouping is accepted"
DEMO = """
import numpy as np
from vectorbt.base.column_grouper import get_group_lens_nb
try:
    print(get_group_lens_nb(np.array([0, 1, 1, 0])))
except ValueError as e:
    print(e)
else:
    raise SystemExit(1)
"""
