"""Undo each repair (fix: commit) alone in a copy of the repository and run the check of its property.

The check has to report the defect again (development tool, no check uses it).
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pairs = []
for l in open(HERE + "/known_findings.jsonl"):
    m = re.search(r"fixed: property=(C\d+) ([0-9a-f]{7,40})", l)
    if m:
        pairs.append(m.groups())
if len(sys.argv) > 1:
    pairs = [p for p in pairs if p[0] in sys.argv[1:] or p[1] in sys.argv[1:]]


def one(p):
    prop, c = p
    d = tempfile.mkdtemp(prefix="revert-", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        shutil.copy("/repo/zoidberg/_version.py", d + "/r/zoidberg/_version.py")
        r = subprocess.run(["git", "-C", d + "/r", "-c", "user.name=a", "-c", "user.email=a@b", "revert", "--no-commit", c], capture_output=True, text=True)
        title = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", c], capture_output=True, text=True).stdout.strip()
        if r.returncode:
            return f"{prop} {c} CONFLICT {title}"
        env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVIDENCE=d + "/ev", VERIF_FAST="0", VERIF_WORKERS="3")
        k = subprocess.run([sys.executable, HERE + "/check.py", prop], env=env, capture_output=True, text=True)
        return f"{prop} {c} {'caught' if k.returncode == 1 else 'MISSED rc=%d' % k.returncode} {title}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get("JOBS", 2))) as ex:
    for s in ex.map(one, pairs):
        print(s, flush=True)
