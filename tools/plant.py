"""Generates /verif/seeded/<id>/ from the list of planted bugs in tools/bugs/*.py.

plant.py            regenerate all
plant.py validate [ids] [--tests]   demo on unchanged and changed copy, checks on the changed copy, optionally the stable tests
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"; REPO = "/repo"; PY = "/opt/venv/bin/python"
BUGS = []
def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=" ".join(needs.split()), breaks=" ".join(breaks.split()), demo=demo))
def load():
    for f in sorted(glob.glob(V + "/tools/bugs/*.py")):
        exec(compile(open(f).read(), f, "exec"), dict(bug=bug))
def clone(dst):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, dst], check=True)
DEMO = '''#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
repo=$PWD; cd "$work"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
PYTHONPATH="$repo" timeout 280 /opt/venv/bin/python "$here/demo.py"
'''
def generate(only):
    c = tempfile.mkdtemp(prefix="plant-", dir="/tmp"); clone(c)
    base = subprocess.run(["git", "-C", c, "rev-parse", "576621d"], capture_output=True, text=True).stdout.strip()
    for b in BUGS:
        if only and b["id"] not in only: continue
        subprocess.run(["git", "-C", c, "checkout", "-q", "--", "."], check=True)
        p = f"{c}/zoidberg/{b['file']}"; s = open(p).read()
        orig = subprocess.run(["git", "-C", c, "show", f"{base}:zoidberg/{b['file']}"], capture_output=True, text=True).stdout.splitlines()
        for old, new in b["edits"]:
            assert s.count(old) >= 1, (b["id"], s.count(old), old)
            if s.count(old) > 1: print("note", b["id"], "first of", s.count(old))
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", c, "diff"], capture_output=True, text=True).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        for l in removed:
            if l not in orig: print("WARNING", b["id"], "changes a line not in the original:", l)
        if not removed: print("WARNING", b["id"], "removes no line")
        d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(c)
    if not only:
        for d in os.listdir(V + "/seeded"):
            if d not in {b["id"] for b in BUGS}: print("stale", d)
def run(cmd, cwd, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def validate(b, tests, checks):
    c = f"/tmp/seedrun-{b['id']}"; clone(c)
    out = [b["id"]]
    try:
        d = f"{V}/seeded/{b['id']}"
        rc0, o0 = run(["bash", d + "/demo.sh"], c, timeout=300)
        out.append(f"demo-clean={rc0}" + ("" if rc0 == 0 else "\n" + o0[-1500:]))
        rc, o = run(["git", "apply", d + "/patch.diff"], c)
        if rc: return out + ["APPLY FAILED " + o]
        rc1, o1 = run(["bash", d + "/demo.sh"], c, timeout=300)
        out.append(f"demo-bug={rc1}" + ("   <-- BAD" if rc1 == 0 or rc1 == 124 else " [" + o1.strip().splitlines()[-1][:150] + "]"))
        if tests:
            w = tempfile.mkdtemp(dir="/tmp", prefix="seedtest-")
            rc, o = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "xdist.plugin", "-n", "2", f"--rootdir={c}", c + "/zoidberg"], w,
                        dict(PYTHONPATH=c, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", OMP_NUM_THREADS="1",
                             MALLOC_MMAP_THRESHOLD_="4294967296", MALLOC_TRIM_THRESHOLD_="8589934592", MALLOC_TOP_PAD_="67108864"), timeout=1700)
            out.append(f"tests rc={rc}: " + " | ".join(o.strip().splitlines()[-1:]) + ("" if rc == 0 else "".join("\n" + l for l in o.splitlines() if l.startswith(("FAILED", "ERROR")))))
            shutil.rmtree(w)
        for ck in checks or [b["prop"]]:
            rc, o = run(["python3", V + "/check.py", ck], V, dict(VERIF_REPO=c, VERIF_EVIDENCE=f"/tmp/seedev-{b['id']}", VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            lines = [l for l in o.splitlines() if l.strip()]
            out.append(f"{ck} rc={rc} {'CAUGHT' if rc == 1 and v else 'MISSED'} " + (lines[-1][:200] if lines else ""))
    finally:
        shutil.rmtree(c, ignore_errors=True); shutil.rmtree(f"/tmp/seedev-{b['id']}", ignore_errors=True)
    return out
if __name__ == "__main__":
    load()
    a = sys.argv[1:]
    tests = "--tests" in a; allc = "--all" in a
    a = [x for x in a if not x.startswith("--")]
    if a and a[0] == "validate":
        ids = a[1:]; sel = [b for b in BUGS if not ids or any(b["id"].startswith(i) for i in ids)]
        generate([b["id"] for b in sel])
        checks = ["C%02d" % i for i in range(1, 40) if os.path.exists(f"{V}/checks/c{i:02d}.py")] if allc else None
        with ThreadPoolExecutor(int(os.environ.get("JOBS", 4))) as ex:
            for r in ex.map(lambda b: validate(b, tests, checks), sel):
                print("\n    ".join(r), flush=True)
    else:
        generate(a)
