"""Lines of /repo/zoidberg that no check executed in its last run (from the evidence files)"""
import ast, glob, json, os, sys
REPO = os.environ.get("VERIF_REPO", "/repo"); EV = os.environ.get("VERIF_EVIDENCE", os.path.join(os.path.dirname(__file__), "..", "evidence"))
seen = {}
for fn in glob.glob(EV + "/C*.json"):
    for f, r in json.load(open(fn))["coverage"].get("lines_of_code_under_test_executed", {}).items():
        for a in r.split(","):
            a = a.split("-"); seen.setdefault(f, set()).update(range(int(a[0]), int(a[-1]) + 1))
for fn in sorted(glob.glob(REPO + "/zoidberg/*.py")):
    f = os.path.basename(fn)
    if f.startswith("test_") or f == "_version.py": continue
    src = open(fn).read(); body = src.splitlines(); miss = []
    for fun in ast.walk(ast.parse(src)):
        if isinstance(fun, ast.FunctionDef):
            for st in ast.walk(fun):
                if isinstance(st, ast.stmt) and st is not fun and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    if not any(n in seen.get(f, ()) for n in range(st.lineno, st.end_lineno + 1)): miss.append(st.lineno)
    miss = sorted(set(miss))
    print(f"== {f}: {len(miss)}")
    for n in miss: print(f"   {n:5d} {body[n-1][:110]}")
