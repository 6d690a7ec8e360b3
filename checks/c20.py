"""C20: results depend on the inputs only"""
import os
import pickle
import subprocess
import sys

import numpy as np

from lib import flows
from lib.harness import HERE, REPO, Sibling, rng_of

PROPERTY = "C20"
LEVEL = "exploration"
REPEAT = 2
SIBLINGS = 0  # part of the histories
TECHNIQUE = "runtime monitoring with a poisoning allocator: numpy's uninitialised allocations filled with NaN, huge and random patterns; all outputs compared across patterns, histories, global random state and processes"
RULE = (
    "Workflows over the whole public API, each executed (a) as is, (b) with every np.empty/np.empty_like/np.ndarray allocation filled with NaN / huge values, (c) after other workflows, among them the same one with inputs of the same sizes but other values, and another global random state, "
    "(d) in a fresh process with another hash seed and working directory, (e) with progress bars, textual or by a stand-in for the optional library. All outputs (including the files written) are compared. Non-trivial: always."
)
ASSUMPTIONS = [
    "values are compared to 1e-10 of the largest in the array (reordered sums allowed), integers and shapes exactly",
    "memory allocated inside compiled code is not poisoned",
]
INPROC = ["poison-nan", "poison-big", "history"]


def cases(tier, rng):
    q = tier == "quick"
    n = dict(mapping=20, generation=8, lines=16, operators=16)
    out = [dict(kind=k) for k in flows.FLOWS for i in range(n.get(k, 10) * (1 if q else 8))]
    for k in flows.FLOWS:
        out += [dict(kind=k, process=True)] * (1 if q else 6)
    out += [dict(kind=k, process=True, bars=b) for k in ("mapping", "operators") for b in ("tqdm", "text") for _ in range(1 if q else 6)]
    return [dict(c) for c in out]


def cost(c):
    return 5 if c.get("process") else dict(mapping=3, generation=2).get(c["kind"], 1)


def execute(kind, seed, calls=None, sibling=False):
    def call(fn, *a, **k):
        if calls is not None:
            calls.append(getattr(fn, "__qualname__", str(fn)))
        return fn(*a, **k)

    rng = np.random.default_rng(seed)
    r = flows.FLOWS[kind](Sibling(rng) if sibling else rng, call, lambda a, lists=True: np.array(a, copy=True))
    return flows.flatten(r)


class Poison:
    """Fills what numpy leaves uninitialised"""

    def __init__(self, pattern, m):
        self.pattern, self.m = pattern, m

    def fill(self, a):
        self.m.saw("allocations poisoned")
        if a.dtype.kind in "fc":
            a.fill(np.nan if self.pattern == "nan" else 1.2345e30)
        elif a.dtype.kind in "iu":
            a.fill(np.iinfo(a.dtype).max // 3)
        elif a.dtype.kind == "b":
            a.fill(True)
        return a

    def __enter__(self):
        self.org = np.empty, np.empty_like
        e, el = self.org
        np.empty = lambda *a, **k: self.fill(e(*a, **k))
        np.empty_like = lambda *a, **k: self.fill(el(*a, **k))

    def __exit__(self, *a):
        np.empty, np.empty_like = self.org


def compare(m, got, want, tag):
    if not m.check(set(got) == set(want), f"{tag}: same outputs", diff=sorted(set(got) ^ set(want))[:5]):
        return
    for k, w in want.items():
        g = got[k]
        if isinstance(w, np.ndarray) and w.dtype.kind in "fc":
            if not m.check(np.shape(g) == w.shape, f"{tag}: shape of {k}"):
                continue
            fin = np.abs(w[np.isfinite(w)])
            s = float(np.max(fin)) if fin.size else 1.0
            same = (g == w) | (np.isnan(g) & np.isnan(w))
            err = np.where(same, 0.0, np.abs(g - w))
            m.saw("values compared", w.size)
            m.saw("values not bit-identical", np.sum(~same))
            m.check(err <= 1e-10 * s, f"{tag}: {k}", n=int(np.sum(~(err <= 1e-10 * s))), max=float(np.nanmax(err)) if err.size else 0)
        elif isinstance(w, np.ndarray):
            m.equal(g, w, f"{tag}: {k}")
        else:
            m.check(g == w or (g != g and w != w), f"{tag}: {k}")


TQDM = """
class tqdm:
    def __init__(self, iterable=None, desc=None, total=None, **kw):
        self.iterable, self.total, self.n = iterable, total, 0
    def __iter__(self):
        for x in self.iterable:
            yield x
            self.n += 1
    def __len__(self):
        return self.total if self.iterable is None else len(self.iterable)
    def update(self, n=1):
        self.n += n
    def close(self): pass
    def refresh(self): pass
    def set_description(self, *a, **k): pass
    def set_postfix(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
trange = lambda *a, **k: tqdm(range(*a), **k)
"""
CHILD = """
import os, sys, pickle
sys.dont_write_bytecode = True
sys.path[:0] = [{repo!r}, {here!r}]
import numpy as np, warnings
warnings.simplefilter("ignore")
so = os.dup(1)
os.dup2(2, 1)
from checks.c20 import execute
from lib import flows
flows.QUIET = {quiet!r}
with np.errstate(all="ignore"):
    r = execute({kind!r}, {seed!r})
pickle.dump(r, open({out!r}, "wb"))
"""


def run(case, m):
    rng = rng_of(case)
    kind, seed = case["kind"], case["seed"]
    os.mkdir("a")
    os.chdir("a")
    calls = []
    want = execute(kind, seed, calls)
    m.saw("calls", len(calls))
    for k, v in want.items():
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            m.check(np.isfinite(v), f"finite {k}")
    if case.get("process"):
        out = os.path.join(m.scratch, "out.pkl")
        d = os.path.join(m.scratch, "b")
        os.mkdir(d)
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2**31))), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        bars = case.get("bars")
        if bars == "tqdm":
            # a stand-in for the optional progress bar library
            t = os.path.join(m.scratch, "lib", "tqdm")
            os.makedirs(t)
            with open(os.path.join(t, "__init__.py"), "w") as f:
                f.write("from .auto import tqdm\n")
            with open(os.path.join(t, "auto.py"), "w") as f:
                f.write(TQDM)
            env["PYTHONPATH"] = os.path.dirname(t) + os.pathsep + env.get("PYTHONPATH", "")
        p = subprocess.run(
            [sys.executable, "-c", CHILD.format(repo=REPO, here=HERE, kind=kind, seed=seed, out=out, quiet=not bars)],
            cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200,
        )  # fmt: skip
        if not m.check(p.returncode == 0, "runs in a fresh process", err=p.stderr.decode()[-300:]):
            return
        m.saw("fresh processes")
        compare(m, pickle.load(open(out, "rb")), want, f"fresh process{' with progress bars' if bars else ''}")
        m.interesting()
        return
    for how in INPROC:
        d = os.path.join(m.scratch, how)
        os.mkdir(d)
        os.chdir(d)
        np.random.seed(int(rng.integers(2**31)))
        if how == "history":
            for _ in range(2):
                k = list(flows.FLOWS)[int(rng.integers(len(flows.FLOWS)))]
                execute(k, int(rng.integers(2**31)))
                m.saw("earlier workflows")
            # and the same one with other inputs, some of the same sizes
            execute(kind, seed + 1)
            execute(kind, seed, sibling=True)
            os.chdir(m.scratch)
            os.mkdir("after")
            os.chdir("after")
            got = execute(kind, seed)
        else:
            with Poison(how[7:], m):
                got = execute(kind, seed)
        compare(m, got, want, how)
    m.interesting()
