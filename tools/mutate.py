#!/usr/bin/env python3
"""mutate.py OUT.jsonl N FILE[:fn,fn...]...: N random one-place mutants per function; keeps those which the repository's tests do not notice.

Used to find weaknesses in the checks; env J (workers), SEED. Survivors are appended to OUT.jsonl with a diff."""
import ast, difflib, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
REPO = os.environ.get("VERIF_REPO", "/repo")
FIRST = {"portfolio": ["portfolio"], "records": ["records", "portfolio"], "generic": ["generic", "records"], "signals": ["signals"],
         "returns": ["returns"], "indicators": ["indicators"], "labels": ["labels"], "base": ["base"], "utils": ["utils"]}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
NAMES = {"min": "max", "max": "min", "nanmin": "nanmax", "nanmax": "nanmin", "minimum": "maximum", "maximum": "minimum", "argmin": "argmax",
         "argmax": "argmin", "any": "all", "all": "any", "ones": "zeros", "zeros": "ones", "mean": "median", "sum": "max"}


def mutants(src, want):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    out = {}

    def visit_fn(fn, qual):
        ms = []
        body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                    ms.append((pos(n), "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0]))))
                elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                    ms.append((pos(n), "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right))))
                elif isinstance(n, ast.BoolOp):
                    ms.append((pos(n), (" and " if isinstance(n.op, ast.Or) else " or ").join("(%s)" % seg(x) for x in n.values)))
                    k = random.randrange(len(n.values))
                    ms.append((pos(n), (" or " if isinstance(n.op, ast.Or) else " and ").join("(%s)" % seg(x) for i, x in enumerate(n.values) if i != k)))
                elif isinstance(n, ast.Constant) and n.value in (0, 1) and not isinstance(n.value, bool) and isinstance(n.value, (int, float)):
                    ms.append((pos(n), "1" if n.value == 0 else "0"))
                    if n.value == 1:
                        ms.append((pos(n), "2"))
                elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                    ms.append((pos(n), str(not n.value)))
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                    ms.append((pos(n), seg(n.operand)))
                elif isinstance(n, ast.Attribute) and n.attr in NAMES:
                    ms.append((pos(n), seg(n.value) + "." + NAMES[n.attr]))
                elif isinstance(n, ast.Attribute) and n.attr == "nan":
                    ms.append((pos(n), "0."))
                elif isinstance(n, ast.Name) and n.id in ("min", "max"):
                    ms.append((pos(n), NAMES[n.id]))
                elif isinstance(n, (ast.If, ast.IfExp)):
                    ms.append((pos(n.test), "not (%s)" % seg(n.test)))
                elif isinstance(n, (ast.Continue, ast.Break)):
                    ms.append((pos(n), "pass"))
                    ms.append((pos(n), "break" if isinstance(n, ast.Continue) else "continue"))
                elif isinstance(n, ast.AugAssign):
                    ms.append((pos(n), "%s = %s" % (seg(n.target), seg(n.value))))
                    ms.append((pos(n), "pass"))
                elif isinstance(n, ast.Assign) and n is not st:
                    ms.append((pos(n), "pass"))
                if isinstance(n, ast.Call) and len(n.args) >= 2:
                    k = random.randrange(len(n.args) - 1)
                    a, b = n.args[k], n.args[k + 1]
                    if not isinstance(a, ast.Starred) and not isinstance(b, ast.Starred) and seg(a) != seg(b):
                        ms.append(((pos(a)[0], pos(b)[1]), "%s, %s" % (seg(b), seg(a))))
                if isinstance(n, ast.Call) and n.keywords:
                    k = random.choice(n.keywords)
                    if k.arg and isinstance(k.value, ast.Name):
                        others = [x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id != k.value.id]
                        if others:
                            ms.append((pos(k.value), random.choice(others)))
                if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
                    a, b = n.slice.elts
                    if isinstance(a, ast.Name) and isinstance(b, ast.Name):
                        ms.append((pos(a), a.id + " - 1"))
        res = []
        random.shuffle(ms)
        for (a, b), t in ms:
            if len(res) >= int(sys.argv[2]):
                break
            new = raw[:a] + t.encode() + raw[b:]
            try:
                if ast.dump(ast.parse(new)) != ast.dump(tree):
                    res.append(new.decode())
            except SyntaxError:
                pass
        out[qual] = res

    def walk(body, pre):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                if (not want or n.name in want) and not n.name.startswith("plot"):
                    visit_fn(n, pre + n.name)
            elif isinstance(n, ast.ClassDef):
                walk(n.body, pre + n.name + ".")
    random.seed(int(os.environ.get("SEED", "0")))
    walk(tree.body, "")
    return out


def main():
    outp, n = sys.argv[1], int(sys.argv[2])
    jobs = []
    for spec in sys.argv[3:]:
        f, _, fns = spec.partition(":")
        src = open(os.path.join(REPO, f)).read()
        ms = mutants(src, set(fns.split(",")) if fns else None)
        for q, l in ms.items():
            random.shuffle(l)
            for m in l[:n]:
                jobs.append((f, q, src, m))
    random.shuffle(jobs)
    jw = int(os.environ.get("J", "4"))
    pool = Queue()
    for k in range(jw):
        d = "/tmp/mutwt_%d_%d" % (os.getpid(), k)
        subprocess.run(["cp", "-a", REPO, d], check=True)
        pool.put(d)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", NUMBA_DISABLE_JIT="1")
    print(len(jobs), "mutants", flush=True)
    cnt = [0, 0]

    def run(j):
        f, q, src, m = j
        d = pool.get()
        try:
            open(os.path.join(d, f), "w").write(m)
            first = FIRST.get(f.split("/")[1], [])
            rest = [t for t in ("portfolio", "generic", "records", "signals", "indicators", "labels", "returns", "base", "utils") if t not in first]
            rc = 0
            for group in [first, rest, ["data", "plotting", "settings", "engine"]]:
                if not group:
                    continue
                try:
                    rc = subprocess.run(["nice", "-n", "15", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=60",
                                         "-W", "ignore", "--tb=no"] + ["tests/test_%s.py" % t for t in group], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400).returncode
                except subprocess.TimeoutExpired:
                    rc = 1
                if rc:
                    break
            cnt[0] += 1
            if rc == 0:
                cnt[1] += 1
                diff = "".join(difflib.unified_diff(src.splitlines(1), m.splitlines(1), "a/" + f, "b/" + f, n=2))
                with open(outp, "a") as o:
                    o.write(json.dumps({"file": f, "fn": q, "diff": diff}) + "\n")
            if cnt[0] % 20 == 0:
                print(cnt, flush=True)
        finally:
            open(os.path.join(d, f), "w").write(src)
            pool.put(d)
    with ThreadPoolExecutor(jw) as ex:
        list(ex.map(run, jobs))
    print("done", cnt)
    while not pool.empty():
        shutil.rmtree(pool.get())


main()
