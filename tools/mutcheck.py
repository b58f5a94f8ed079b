#!/usr/bin/env python3
"""mutcheck.py SURVIVORS.jsonl: which of the mutants the repository's tests miss are seen by contracts or monitors (env J; W=work dir)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = {"portfolio": (["process", "sigres", "arrays", "replay", "applied", "trades"], ["mcore", "msim", "mportfolio"]),
        "records": (["records"], ["mrecords", "mportfolio"]), "signals": (["signals"], ["msignals"]),
        "generic": (["generic", "windows", "applied", "ranges", "returns"], ["mgeneric", "mranges"]),
        "returns": (["returns", "applied"], ["mreturns"]), "indicators": (["indicators"], ["mindicators"]),
        "labels": (["labels"], ["mlabels"]), "base": (["arrays"], ["mbase", "mgeneric"])}


def one(fn, part):
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    sys.path[:0] = [V, os.environ["VERIF_REPO"]]
    import warnings, importlib, time
    warnings.filterwarnings("ignore")
    import vectorbt  # noqa
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from pyvc import run
    from pyvc.contract import REGISTRY
    cm, mm = MODS[part]
    for x in cm:
        importlib.import_module("contracts." + x)
    for x in mm:
        importlib.import_module("monitors." + x)
    base = fn.split(".")[-1]
    cs = [(n, c) for n, c in REGISTRY.items() if n.split(":")[1] == base and c.module != "lemma"]
    how = "" if cs else "(no contract) "
    for n, c in cs:
        for p in c.props:
            if c.check_concrete:
                for sd in range(2):
                    r = run.concrete_task(("contract", n, sd, c.trials, p, time.time() + 40))
                    if r["fails"] or r.get("error"):
                        return how + "CONCRETE %s %s %s" % (p, n, str(r.get("error") or r["fails"][0].get("clauses"))[:100])
    seen = set()
    ms = [(("0" if base in m.functions else "1") if hasattr(m, "functions") else "1", m.name, p, m) for p, l in run.MONITORS.items() for m in l]
    for _, name, p, m in sorted(ms, key=lambda x: x[:3]):
        if name in seen:
            continue
        seen.add(name)
        for sd in range(2):
            r = run.concrete_task(("monitor", name, sd, m.trials, p, time.time() + 40))
            if r["fails"] or r.get("error"):
                return how + "MONITOR %s %s %s" % (p, name, str(r.get("error") or r["fails"][0]["failure"])[:100])
    for n, c in cs:
        for p in c.props[:1]:
            for case in (range(len(c.cases)) if c.cases else [None]):
                r = run.proof_task((n, case, p, 120., 120., 5000))
                if r["fails"] or r["errors"]:
                    return how + "PROOF-ONLY %s %s %s" % (p, n, str([f["label"] for f in r["fails"]] or r["errors"])[:200])
    return how + "MISSED"


def main():
    w = os.environ.get("W", "/tmp")
    jobs = [json.loads(l) for l in open(sys.argv[1])]
    only = os.environ.get("ONLY")

    def go(kj):
        k, j = kj
        d = "%s/mutchk_%d_%d" % (w, os.getpid(), k)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        try:
            r = subprocess.run(["git", "-C", d, "apply", "-"], input=j["diff"], text=True, capture_output=True)
            if r.returncode:
                return j, "no apply " + r.stderr[:100]
            r = subprocess.run(["timeout", "600", "/opt/venv/bin/python", __file__, "--one", j["fn"], j["file"].split("/")[1]], text=True, capture_output=True,
                               env=dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1"))
            return j, (r.stdout.strip().splitlines() or ["?" + str(r.returncode) + r.stderr[-300:]])[-1]
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for j, r in ex.map(go, [(k, j) for k, j in enumerate(jobs) if not only or j["fn"] in only.split(",")]):
            print(r, "|", j["fn"], "|", " ".join(x.strip() for x in j["diff"].splitlines() if x[:1] in "+-" and x[:3] not in ("+++", "---")), flush=True)


if sys.argv[1] == "--one":
    print(one(sys.argv[2], sys.argv[3]))
else:
    main()
