"""check.py <property>: decide one property on /repo's current source."""
import os
import sys
import json

ROOT = os.path.dirname(os.path.abspath(__file__))
os.environ["NUMBA_DISABLE_JIT"] = "1"
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

PLAN = {
    "C01": (["process"], ["mcore"]),
    "C02": (["process"], ["mcore"]),
    "C03": (["process"], ["mcore"]),
    "C04": (["process"], ["mcore"]),
    "C05": (["sigres"], ["msim"]),
    "C06": (["sigres"], ["msim"]),
    "C07": (["process", "simulate"], ["msim"]),
    "C08": (["arrays", "simulate", "callseq"], ["msim"]),
    "C09": (["replay"], ["mportfolio"]),
    "C10": (["trades"], ["mportfolio"]),
    "C11": (["replay", "applied"], ["mportfolio"]),
    "C12": (["signals"], ["msignals"]),
    "C13": (["signals"], ["msignals"]),
    "C14": (["signals"], ["msignals"]),
    "C15": (["windows", "applied"], ["mgeneric"]),
    "C16": (["generic", "applied", "returns"], ["mgeneric"]),
    "C17": (["ranges"], ["mranges"]),
    "C18": (["returns", "applied"], ["mreturns"]),
    "C19": (["indicators"], ["mindicators"]),
    "C20": (["labels"], ["mlabels"]),
    "C21": (["records"], ["mrecords"]),
    "C22": (["arrays"], ["mbase"]),
    "C23": (["arrays", "applied"], ["mbase", "mgeneric"]),
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import warnings
    warnings.filterwarnings("ignore")
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    try:
        import vectorbt  # noqa: F401  the code under verification
    except BaseException as e:
        path = os.path.join(ROOT, "evidence", "replay", prop + ".json")
        json.dump({"property": prop, "error": "vectorbt cannot be imported: %r" % e}, open(path, "w"))
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": 0.0, "violations": 1,
                   "coverage": {"obligations": 0, "discharged": 0, "checker_cmd": "import vectorbt", "trusted_base": []}},
                  open(os.path.join(ROOT, "evidence", prop + ".json"), "w"))
        print("  vectorbt cannot be imported: %r" % e)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from pyvc import run
    mods, mons = PLAN[prop]
    return run.check(prop, tier, seed, mods, mons)


if __name__ == "__main__":
    sys.exit(main())
