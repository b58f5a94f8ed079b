ID, PROPERTY = "c06_stop_addonly", "C06"
FILE = "vectorbt/portfolio/nb.py"
OLD = """    elif position_now < 0:
        if upon_stop_exit == StopExitMode.Close:
            is_short_exit = True
            accumulate = AccumulationMode.Disabled
        elif upon_stop_exit == StopExitMode.CloseReduce:
            is_short_exit = True
"""
NEW = """    elif position_now < 0:
        if upon_stop_exit == StopExitMode.Close:
            is_short_exit = True
            if accumulate != AccumulationMode.AddOnly:
                accumulate = AccumulationMode.Disabled
        elif upon_stop_exit == StopExitMode.CloseReduce:
            is_short_exit = True
"""
NEEDS = "a stop hit in a short position with stop exit mode Close and accumulation set to add-only"
BREAKS = "the accumulation mode survives the stop although the exit mode says to close without it"
DEMO = """
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
r = nb.generate_stop_signal_nb(-1., StopExitMode.Close, AccumulationMode.AddOnly)
print(r)
assert r == (False, False, False, True, AccumulationMode.Disabled)
"""
