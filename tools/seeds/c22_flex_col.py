ID, PROPERTY = "c22_flex_wide", "C22"
FILE = "vectorbt/base/reshape_fns.py"
OLD = ""
NEW = ""
