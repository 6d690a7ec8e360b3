"""Mutation testing of the checks (development tool, no check uses it).

mutate.py list                      number of mutants per file
mutate.py run OUT [--file F] [--every N] [--offset K] [--jobs J] [--lines a-b]
   makes one small change at a time in a scratch copy of the repository and
   runs the checks that execute the changed line (from the evidence files),
   stopping at the first one that reports a violation.  Survivors are written
   to OUT (one json line per mutant).
"""
import argparse, ast, glob, json, os, shutil, subprocess, sys, tempfile, itertools
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EV = os.environ.get("VERIF_EVIDENCE", HERE + "/evidence")
FILES = "fieldtracer zoidberg weights grid poloidal_grid rzline boundary diff smooth stencil_dagp_fv field spectralline plot progress".split()
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Mod: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"]}
NAMES = {"amax": "amin", "amin": "amax", "maximum": "minimum", "minimum": "maximum", "cos": "sin", "sin": "cos", "zeros": "empty", "zeros_like": "empty_like",
         "floor": "ceil", "logical_or": "logical_and", "logical_and": "logical_or", "max": "min", "min": "max", "any": "all", "all": "any", "argmin": "argmax", "argmax": "argmin", "remainder": "fmod", "asarray": "array", "copy": "view"}


def skip(node, src):
    seg = ast.get_source_segment(src, node) or ""
    return isinstance(node, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)) or seg.startswith(("print(", "log(", "plt.", "warnings."))


def mutants(fn):
    src = open(fn).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    bl = [l.encode() for l in lines]

    def pos(ln, col):
        return off[ln - 1] + len(bl[ln - 1][:col].decode())

    tree = ast.parse(src)
    out = []

    def add(node, a, b, new, what):
        out.append((node.lineno, a, b, new, what))

    def visit(node, infun):
        if isinstance(node, (ast.FunctionDef,)):
            infun = True
        if isinstance(node, ast.stmt) and skip(node, src):
            return
        if isinstance(node, ast.If):
            t = ast.get_source_segment(src, node.test) or ""
            if any(w in t for w in ("show", "plotting", "quiet", "debug", "plot", "__main__", "verbose", "tqdm")):
                return
        if infun and hasattr(node, "lineno"):
            a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                l, r = node.left, node.comparators[0]
                x, y = pos(l.end_lineno, l.end_col_offset), pos(r.lineno, r.col_offset)
                mid = src[x:y]
                for new in CMP.get(type(node.ops[0]), []):
                    op = mid.strip("() \n")
                    if op and op in mid:
                        add(node, x, y, mid.replace(op, new, 1), f"{op} -> {new}")
            elif isinstance(node, ast.BinOp):
                l, r = node.left, node.right
                x, y = pos(l.end_lineno, l.end_col_offset), pos(r.lineno, r.col_offset)
                mid = src[x:y]
                if not (isinstance(l, ast.Constant) and isinstance(l.value, str)):
                    for new in BIN.get(type(node.op), []):
                        op = mid.strip("() \n")
                        if op and op in mid:
                            add(node, x, y, mid.replace(op, new, 1), f"{op} -> {new}")
            elif isinstance(node, ast.BoolOp):
                l, r = node.values[0], node.values[1]
                x, y = pos(l.end_lineno, l.end_col_offset), pos(r.lineno, r.col_offset)
                mid = src[x:y]
                o, n = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
                add(node, x, y, mid.replace(o, n, 1), f"{o} -> {n}")
            elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)):
                v = node.value
                if v is True or v is False:
                    add(node, a, b, str(not v), f"{v} -> {not v}")
                elif isinstance(v, int):
                    add(node, a, b, str(v + 1), f"{v} -> {v + 1}")
                    if v > 0:
                        add(node, a, b, str(v - 1), f"{v} -> {v - 1}")
                elif isinstance(v, float):
                    add(node, a, b, repr(v * 1.01 if v else 1e-3), f"{v} -> *1.01")
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
                o = pos(node.operand.lineno, node.operand.col_offset)
                if src[a:o].strip() in ("-", "not"):
                    add(node, a, o, " " if isinstance(node.op, ast.Not) else "+", "drop " + src[a:o].strip())
            elif isinstance(node, (ast.AugAssign,)):
                add(node, a, b, "pass", "delete statement")
            elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
                add(node, a, b, "pass", "delete statement")
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                add(node, a, b, "pass", "delete call")
            elif isinstance(node, (ast.Break, ast.Continue)):
                add(node, a, b, "pass", "delete " + src[a:b])
            elif isinstance(node, ast.Attribute) and node.attr in NAMES:
                e = b - len(node.attr)
                add(node, e, b, NAMES[node.attr], f"{node.attr} -> {NAMES[node.attr]}")
            elif isinstance(node, ast.Call):
                for k in node.keywords:
                    if k.arg in ("rtol", "endpoint", "axis", "nsteps", "tol", "period", "fill_value"):
                        pass
            elif isinstance(node, ast.If):
                t = node.test
                x, y = pos(t.lineno, t.col_offset), pos(t.end_lineno, t.end_col_offset)
                add(node, x, y, "False", "if False")
        if isinstance(node, (ast.arguments,)):
            # defaults are contracts too
            pass
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.JoinedStr):
                continue
            visit(c, infun)

    visit(tree, False)
    res = []
    for ln, a, b, new, what in out:
        m = src[:a] + new + src[b:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append(dict(line=ln, what=what, text=lines[ln - 1].strip(), src=m))
    return res


def coverage():
    cov = {}
    for fn in glob.glob(EV + "/C*.json"):
        d = json.load(open(fn))
        for f, r in d["coverage"].get("lines_of_code_under_test_executed", {}).items():
            for a in r.split(","):
                a = a.split("-")
                for n in range(int(a[0]), int(a[-1]) + 1):
                    cov.setdefault((f, n), []).append((d["wall_s"], d["property"]))
    return cov


PRIMARY = dict(fieldtracer="C01 C02 C03 C04 C24 C29", zoidberg="C05 C06 C17 C18 C12 C26", weights="C07 C08 C09", grid="C10 C12", poloidal_grid="C11 C12 C13 C23", rzline="C14 C23",
               boundary="C15", diff="C22 C18", smooth="C23", stencil_dagp_fv="C19", field="C16 C25 C24 C29", spectralline="C14", plot="C27", progress="C28")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("--file")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--primary", action="store_true", help="only the checks that own the file")
    ap.add_argument("--lines")
    a = ap.parse_args()
    cov = coverage()
    todo = []
    for f in a.file.split(",") if a.file else FILES:
        ms = mutants(f"{REPO}/zoidberg/{f}.py")
        hit = []
        for m in ms:
            m["file"] = f
            p = cov.get((f + ".py", m["line"]), [])
            prim = PRIMARY[f].split()
            m["checks"] = sorted({c for _, c in p}, key=lambda c: (prim.index(c) if c in prim else 99, c))
            if a.primary:
                m["checks"] = [c for c in m["checks"] if c in prim]
            hit.append(m)
        ex = [m for m in hit if m["checks"]]
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ex = [m for m in ex if lo <= m["line"] <= hi]
        print(f"{f}: {len(ms)} mutants, {len(ex)} on executed lines", flush=True)
        todo += ex[a.offset :: a.every]
    if a.cmd == "list":
        return
    print(len(todo), "to run", flush=True)
    pool = []

    def one(m):
        d = pool.pop()
        fn = f"{d}/zoidberg/{m['file']}.py"
        orig = open(fn).read()
        killed = None
        try:
            open(fn, "w").write(m["src"])
            for c in m["checks"]:
                env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_FAST="1", VERIF_WORKERS=str(a.workers), VERIF_REPLAYS=d + "/replays")
                try:
                    r = subprocess.run([sys.executable, HERE + "/check.py", c], env=env, capture_output=True, text=True, timeout=400)
                    if r.returncode:
                        killed = c if r.returncode == 1 else f"{c} rc={r.returncode}"
                        break
                except subprocess.TimeoutExpired:
                    killed = c + " timeout"
                    break
        finally:
            open(fn, "w").write(orig)
            pool.append(d)
        m2 = {k: v for k, v in m.items() if k != "src"}
        m2["killed"] = killed
        with open(a.out, "a") as f:
            f.write(json.dumps(m2) + "\n")
        return killed

    root = tempfile.mkdtemp(prefix="zbmut-", dir="/tmp")
    try:
        for j in range(a.jobs):
            d = f"{root}/{j}"
            shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "*.nc"))
            pool.append(d)
        with ThreadPoolExecutor(a.jobs) as ex:
            res = list(ex.map(one, todo))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print("killed", sum(1 for r in res if r), "of", len(res))


main()
