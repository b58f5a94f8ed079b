#!/usr/bin/env python3
"""seed.py FILE...: turns seed descriptions into /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json).

A description is a Python file with ID, PROPERTY, FILE, OLD, NEW (or EDITS=[(file, old, new)]), NEEDS, BREAKS, DEMO, TESTS.
Each is confirmed in a scratch copy of /repo: the demo passes without and fails with the patch, and the named tests pass with it."""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
NUMBA_CACHE_DIR=$(mktemp -d); export NUMBA_CACHE_DIR
trap '/bin/rm -r "$NUMBA_CACHE_DIR"' EXIT
%s/opt/venv/bin/python -W ignore "$here/demo.py"
"""


def make(path):
    s = runpy.run_path(path)
    i = s["ID"]
    d = os.path.join(V, "seeded", i)
    wt = "/tmp/seedwt_" + i
    if os.path.exists(wt):
        shutil.rmtree(wt)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    try:
        for f, old, new in s.get("EDITS") or [(s["FILE"], s["OLD"], s["NEW"])]:
            p = os.path.join(wt, f)
            t = open(p).read()
            if t.count(old) != s.get("COUNT", 1):
                return i, "text found %d times in %s" % (t.count(old), f)
            open(p, "w").write(t.replace(old, new))
        patch = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s["DEMO"].lstrip("\n"))
        jit = "" if s.get("JIT") else "NUMBA_DISABLE_JIT=1 "
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % jit)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run([os.path.join(d, "demo.sh")], cwd="/repo", env=ENV, capture_output=True, text=True)
        b = subprocess.run([os.path.join(d, "demo.sh")], cwd=wt, env=ENV, capture_output=True, text=True)
        msg = "demo: unchanged %d, patched %d" % (a.returncode, b.returncode)
        ok = a.returncode == 0 and b.returncode != 0
        if a.returncode:
            msg += " " + a.stderr[-600:]
        elif b.returncode:
            msg += " (%s)" % (b.stderr.strip().splitlines() or b.stdout.strip().splitlines() or ["?"])[-1][:150]
        if ok and not os.environ.get("NOTESTS"):
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-n", "4",
                               "--timeout=600", "-W", "ignore", "--tb=line", "-x"], cwd=wt, capture_output=True, text=True,
                               env=dict(ENV, NUMBA_DISABLE_JIT="1"))   # 940 tests; vcheck repeats them compiled
            msg += "; tests: " + (r.stdout.strip().splitlines() or ["?"])[-1]
            if r.returncode:
                msg += " " + " ".join(l[:90] for l in r.stdout.splitlines() if l.startswith("FAILED"))
            ok = ok and r.returncode == 0
        if not ok:
            shutil.rmtree(d)
        return i, ("KEPT " if ok else "DROPPED ") + msg
    finally:
        shutil.rmtree(wt)


with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for r in ex.map(make, sys.argv[1:]):
        print(*r, flush=True)
