"""C28: progress reports"""
import json
import os
import re
import subprocess
import sys

import numpy as np

from lib.harness import rng_of

PROPERTY = "C28"
LEVEL = "exploration"
REPEAT = 4
TECHNIQUE = "runtime monitoring: everything written to the standard output of a process reporting progress is recorded and parsed, and compared with the fractions reported and with the clock"
RULE = (
    "Random sequences of calls of update_progress (fractions in and out of range, integers, other types, bar lengths, both styles and the animated one), "
    "of the Progress context with an injected clock, of format_time for up to weeks, and make_maps with the reports on and off. "
    "Non-trivial: at least one report parsed."
)
ASSUMPTIONS = ["tqdm is not installed"]

CHILD = r"""
import json, sys
calls = json.load(open(sys.argv[1]))
mark = "\x01"
def out(s):
    sys.stdout.write(s)
    sys.stdout.flush()
class Clock:
    now = 1000.0
    def time(self):
        return self.now
clock = Clock()
import time
time.time = time.monotonic = time.perf_counter = clock.time
import zoidberg.progress as zp
for c in calls:
    k = c["kind"]
    if k == "bar":
        p = c["value"]
        if c["type"] == "int":
            p = int(p)
        elif c["type"] == "str":
            p = str(p)
        elif c["type"] == "none":
            p = None
        zp.update_progress(p, **c["kw"])
    elif k == "time":
        out(zp.format_time(c["value"]))
    elif k == "progress":
        with zp.Progress() as pr:
            for dt, p in c["steps"]:
                clock.now += dt
                pr.update(p)
                out("\x02")
            clock.now += c["last"]
    elif k == "maps":
        import numpy as np, zoidberg as zb
        g = zb.grid.rectangular_grid(5, c["ny"], 5, Lx=0.1, Ly=1.0, Lz=0.1, yperiodic=True)
        f = zb.field.Slab(By=1.0, Bz=0.01, Bzprime=0.0)
        zb.make_maps(g, f, nslice=c["nslice"], **c["kw"])
    out(mark)
"""


def cases(tier, rng):
    out = []
    for i in range(3 if tier == "quick" else 24):
        out.append(dict(kind="bar"))
        out.append(dict(kind="time"))
        out.append(dict(kind="progress"))
        out.append(dict(kind="maps"))
    return out


def calls(kind, rng):
    out = []
    if kind == "bar":
        for i in range(300):
            v = float(rng.choice([rng.uniform(0, 1), rng.uniform(0, 1), 0.0, 1.0, rng.uniform(1, 3), -rng.uniform(0, 2), np.round(rng.uniform(), 2), 1e-9, 1 - 1e-9]))
            kw = {}
            if rng.random() < 0.5:
                kw["barLength"] = int(rng.choice([1, 2, 5, 10, 17, 40, 100]))
            if rng.random() < 0.4:
                kw["ascii"] = bool(rng.random() < 0.7)
            if rng.random() < 0.4:
                kw["zoidberg"] = bool(rng.random() < 0.7)
            if rng.random() < 0.1:
                kw["MXG"] = 1
            t = "float"
            if i % 10 == 0:
                t, v = "int", float(rng.integers(-1, 3))
            elif i % 33 == 1:
                t = str(rng.choice(["str", "none"]))
            out.append(dict(kind="bar", value=v, type=t, kw=kw))
    elif kind == "time":
        for i in range(300):
            v = float(rng.choice([rng.uniform(0, 60), rng.uniform(0, 3600), rng.uniform(0, 86400), rng.uniform(0, 3e6), 60 * rng.integers(0, 100), 3600 * rng.integers(0, 60), 86400 * rng.integers(0, 20), rng.integers(0, 100000)]))
            out.append(dict(kind="time", value=v))
    elif kind == "progress":
        for i in range(30):
            n = int(rng.integers(0, 9))
            p = np.sort(rng.uniform(0, 1, n))
            if n and rng.random() < 0.4:
                p[0] = 0
            dt = rng.uniform(0, 10.0 ** rng.integers(0, 5), n)
            out.append(dict(kind="progress", steps=[[float(a), float(b)] for a, b in zip(dt, p)], last=float(rng.uniform(0, 1000))))
    else:
        for i in range(3):
            kw = {}
            if i != 1 or rng.random() < 0.5:
                kw["quiet"] = i == 1
            if rng.random() < 0.5:
                kw["ascii"] = True
            out.append(dict(kind="maps", ny=int(rng.integers(1, 7)) if i else int(rng.integers(2, 7)), nslice=int(rng.integers(1, 3)), kw=kw))
    return out


BAR = re.compile(r"^(?:Percent: \[(?P<bar>[^\]]*)\]|Progress: \[(?P<zb>[^\]]*)\]) +(?P<perc>-?\d+\.\d\d)% (?P<status>[^\r]*)(?:\r\n|$)")


def parse(text):
    """The reports in the text: (bar, animated bar, percentage, status)"""
    out = []
    for t in text.split("\r"):
        t = t.strip("\n")
        if not t:
            continue
        g = BAR.match(t)
        if g:
            out.append((g["bar"], g["zb"], float(g["perc"]), g["status"].strip()))
    return out


def duration(text):
    """Seconds in a text like 01d02h03m04s"""
    g = re.fullmatch(r"(?:(\d+)d)?(?:(\d+)h)?(?:(\d+)m)?(\d+)s", text)
    if not g:
        return None
    d, h, mi, s = (int(v or 0) for v in g.groups())
    return ((d * 24 + h) * 60 + mi) * 60 + s


def bar(m, c, text):
    r = parse(text)
    if not m.check(len(r) == 1, "one report per call", call=c, got=text[:200]):
        return
    b, zb, perc, status = r[0]
    v, n, kw = c["value"], c["kw"].get("barLength", 10), c["kw"]
    wrong = c["type"] in ("str", "none")
    if wrong:
        v = 0.0
    want = min(max(v, 0.0), 1.0)
    m.check(abs(perc - 100 * want) <= 0.0051, "percentage", call=c, got=perc, want=100 * want)
    word = "error" if wrong else "Halt" if v < 0 else "Done" if v >= 1 else ""
    m.check(word in status if word else status == "", "status", call=c, got=status, want=word)
    full = "#" if kw.get("ascii") else "\u2588"
    if kw.get("zoidberg"):
        m.check(zb is not None, "animated bar", call=c, got=text[:100])
        if zb is None:
            return
        m.check(zb.strip(full + "-").startswith("(") and zb.strip(full + "-").endswith(")"), "animated bar", call=c, got=zb)
        done = len(zb) - len(zb.lstrip(full))
        left = len(zb) - len(zb.rstrip("-"))
        free = done + left
        m.check(free > 0 and abs(done - free * want) <= 1, "share of the animated bar", call=c, got=[done, left])
        m.check(done + left >= max(n, 40) - 16, "length of the animated bar", call=c, got=[done, left])
    else:
        m.check(b is not None and len(b) == n and set(b) <= {full, "-"}, "bar", call=c, got=b)
        if b is None:
            return
        done = len(b) - len(b.lstrip(full))
        m.check(b == full * done + "-" * (n - done), "bar", call=c, got=b)
        m.check(abs(done - n * want) <= 0.5 + 1e-9, "share of the bar", call=c, got=done, want=n * want)
    m.saw("bars drawn")


def run(case, m):
    rng = rng_of(case)
    todo = calls(case["kind"], rng)
    fn = os.path.join(os.getcwd(), "calls.json")
    with open(fn, "w") as f:
        json.dump(todo, f)
    env = dict(os.environ, PYTHONIOENCODING="utf-8")
    p = subprocess.run([sys.executable, "-c", CHILD, fn], capture_output=True, env=env, timeout=200)
    text = p.stdout.decode("utf-8", "replace")
    if not m.check(p.returncode == 0, "reports without an error", got=p.stderr.decode("utf-8", "replace")[-600:]):
        return
    parts = text.split("\x01")[:-1]
    if not m.check(len(parts) == len(todo), "every call returns", got=len(parts), want=len(todo)):
        return
    for c, t in zip(todo, parts):
        if c["kind"] == "bar":
            bar(m, c, t)
        elif c["kind"] == "time":
            d = duration(t)
            m.check(d is not None and abs(d - c["value"]) <= 0.5 + 1e-6, "duration as text", got=t, want=c["value"])
            if d is not None:
                u = [int(x) for x in re.findall(r"\d+", t)]
                lim = [60, 60, 24, 10**9][: len(u)][::-1]
                m.check(all(a < b or (i == len(u) - 1 and a == 60 and c["value"] % 60 > 59.4) for i, (a, b) in enumerate(zip(u, lim))), "largest units first", got=t)
                m.check(len(u) == 1 or u[0] > 0, "no leading empty unit", got=t)
            m.saw("durations")
        elif c["kind"] == "progress":
            progress(m, c, t)
        else:
            r = [x[2] for x in parse(t)]
            if c["kw"].get("quiet"):
                m.check(not r, "quiet", call=c, got=t[:200])
            elif c["ny"] > 1:
                # several bars one after the other are fine, each of them complete
                bars = []
                for x in r:
                    if not bars or (x == 0 and bars[-1][-1] > 0):
                        bars.append([])
                    bars[-1].append(x)
                m.check(len(bars) > 0 and all(b[-1] == 100.0 for b in bars), "reaches 100 %", call=c, got=r)
                m.check(all(b >= a for bar in bars for a, b in zip(bar, bar[1:])), "never goes back", call=c, got=r)
                m.saw("reports of make_maps", len(r))
    m.interesting()


def progress(m, c, text):
    lines = text.split("\x02")
    if not m.check(len(lines) == len(c["steps"]) + 1, "one report per update", got=len(lines)):
        return
    t = 0.0
    for (dt, p), ln in zip(c["steps"] + [[c["last"], 1.0]], lines):
        t += dt
        g = re.fullmatch(r"\s*(\d+\.\d\d) % \.\.\. (\w+)>(\w+)\s*", ln)
        if not m.check(g is not None, "report", got=ln):
            continue
        m.check(abs(float(g[1]) - 100 * p) <= 0.0051, "percentage", got=g[1], want=100 * p)
        a = duration(g[2])
        m.check(a is not None and abs(a - t) <= 0.5 + 1e-6, "time used", got=g[2], want=t)
        if p > 0:
            b = duration(g[3])
            left = t / p - t
            m.check(b is not None and abs(b - left) <= 0.5 + 1e-6 * left, "time left", got=g[3], want=left)
        m.saw("reports of Progress")
