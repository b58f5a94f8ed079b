"""Prints, per property, the functions under contract (proved / assumed bounded) and the monitors: the tables in DESIGN.md."""
import os, sys, importlib, warnings
os.environ["NUMBA_DISABLE_JIT"] = "1"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get("VERIF_REPO", "/repo")]
warnings.filterwarnings("ignore")
import vectorbt  # noqa
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import check
from pyvc import run
from pyvc.contract import REGISTRY
for p, (mods, mons) in sorted(check.PLAN.items()):
    for x in mods:
        importlib.import_module("contracts." + x)
    for x in mons:
        importlib.import_module("monitors." + x)
for p in sorted(check.PLAN):
    cs = [(n, c) for n, c in REGISTRY.items() if p in c.props]
    short = lambda n: n.split(":")[1]
    print("* **%s** — proved: %s" % (p, ", ".join("`%s`" % short(n) for n, c in cs if not c.assumed and c.module != "lemma")))
    l = [short(n) for n, c in cs if c.module == "lemma"]
    if l:
        print("  Lemmas: %s." % ", ".join("`%s`" % x for x in l))
    l = [short(n) for n, c in cs if c.assumed]
    if l:
        print("  Assumed, checked only on random runs (bounded): %s." % ", ".join("`%s`" % x for x in l))
    l = [m.name for m in run.MONITORS.get(p, [])]
    if l:
        print("  Bounded monitors: %s." % ", ".join("`%s`" % x for x in l))
