"""Workload driver, monitors' event log, evidence and verdicts.

A check module (checks/cNN.py) provides

    PROPERTY  the id
    LEVEL     level for the evidence file
    RULE      how the cases are made and what makes one non-trivial
    cases(tier, rng)   -> list of JSON-able dicts (the workload)
    REPEAT    how often the quick tier calls it (1); the thorough tier half as often
    run(case, m)       -> executes the real code under the monitor ``m``

``run`` reports what it observed with ``m.saw(kind, n)`` and what it decided
with ``m.check`` / ``m.close`` / ``m.fail``; nothing else decides the verdict,
except that an exception or a hang of the code under test on a valid input is
a violation too.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
MEMORY = int(float(os.environ.get("VERIF_MEMORY_GB", "3.5")) * 2**30)
CASE_CPU_S = 150  # CPU seconds; cases take a few seconds at most
FAST = os.environ.get("VERIF_FAST") == "1"  # for tools/mutate.py: stop at the first violation
WORKERS = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 1)))

import numpy as np  # noqa: E402


class Hang(Exception):
    pass


class Stop(Exception):
    """Raised by a monitor to end a case early after a failure"""


class Monitor:
    def __init__(self, case):
        self.case = case
        self.events = {}
        self.margins = {}
        self.fails = []
        self.known = []
        self.nontrivial = False
        self.notes = {}

    # -- observations ----------------------------------------------------
    def saw(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def note(self, key, val):
        self.notes[key] = val

    def interesting(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    # -- verdicts --------------------------------------------------------
    def fail(self, what, stop=False, at=None, **detail):
        """at: details which may have the names of the others"""
        detail = {**detail, **{k if k not in detail else k + "_": v for k, v in (at or {}).items()}}
        if len(self.fails) < 5:
            self.fails.append({"what": what, **{k: _js(v) for k, v in detail.items()}})
        if stop:
            raise Stop(what)

    def known_finding(self, key, what):
        self.known.append((key, what))

    def check(self, cond, what, stop=False, **detail):
        self.saw("assertions")
        ok = bool(np.all(cond))
        if not ok:
            self.fail(what, stop=stop, **detail)
        return ok

    def close(self, got, want, what, rtol=1e-9, atol=1e-12, stop=False, **detail):
        """All elements within atol + rtol*|want|; also checks the shape"""
        self.saw("assertions")
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(what + ": shape", stop=stop, got=got.shape, want=want.shape, at=detail)
            return False
        if got.size == 0:
            return True
        with np.errstate(all="ignore"):
            err = np.abs(got - want)
            lim = atol + rtol * np.abs(want)
            bad = ~(err <= lim)
        # identical non finite values would be a failure as well: nothing
        # compared here may be non finite
        self.saw("values compared", got.size)
        with np.errstate(all="ignore"):
            r = float(np.max(np.where(lim > 0, err / np.where(lim > 0, lim, 1), 0)))
        key = what.split(":")[0]
        if np.isfinite(r):
            self.margins[key] = max(self.margins.get(key, 0.0), r)
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.ndim else ()
            self.fail(
                what,
                stop=stop,
                index=list(map(int, i)),
                got=got[i],
                want=want[i],
                n_bad=int(np.sum(bad)),
                n=int(bad.size),
                max_err=np.max(np.where(np.isfinite(err), err, np.inf)),
                at=detail,
            )
            return False
        return True

    def equal(self, got, want, what, stop=False, **detail):
        self.saw("assertions")
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            n = int(np.sum(g != w)) if g.shape == w.shape else -1
            i = ()
            if g.shape == w.shape and g.ndim:
                i = np.unravel_index(int(np.argmax(g != w)), g.shape)
            self.fail(
                what,
                stop=stop,
                got=g[i] if g.shape == w.shape else g.shape,
                want=w[i] if g.shape == w.shape else w.shape,
                index=list(map(int, i)),
                n_bad=n,
                at=detail,
            )
            return False
        self.saw("values compared", g.size)
        return True

    def raises(self, exc, fn, what):
        self.saw("assertions")
        try:
            fn()
        except exc:
            self.saw("rejections observed")
            return True
        except Exception as e:  # noqa
            self.fail(what + ": wrong exception", got=repr(e)[:200])
            return False
        self.fail(what + ": not rejected")
        return False


def _js(v):
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 20 else f"array{v.shape}"
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [_js(x) for x in v][:50]
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)[:300]


class Sibling:
    """Draws the same sizes and choices as a generator, but other real numbers
    (from the same intervals): inputs which look like those of a case"""

    def __init__(self, rng):
        self._rng = rng

    def __getattr__(self, name):
        return getattr(self._rng, name)

    def uniform(self, low=0.0, high=1.0, size=None):
        v = self._rng.uniform(low, high, size)
        return v + 0.1 * (0.5 * (np.asarray(low) + np.asarray(high)) - v)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + 0.9 * (self._rng.normal(loc, scale, size) - loc)


_SIBLING = False


def rng_of(case):
    """Random generator owned by a case"""
    rng = np.random.default_rng(int(case["seed"]))
    return Sibling(rng) if _SIBLING else rng


def _run_sibling(mod, case, scratch):
    """What came before must not matter: the same case with slightly other
    numbers. Its verdict is of no interest."""
    global _SIBLING
    m = Monitor(case)
    m.scratch = os.path.join(scratch, "sibling")
    os.mkdir(m.scratch)
    os.chdir(m.scratch)
    _SIBLING = True
    try:
        mod.run(case, m)
    except Exception:  # noqa
        pass
    finally:
        _SIBLING = False
        os.chdir(scratch)


def layout(rng, a, how=None):
    """The same values in another memory layout (order, strides, flags)"""
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return a
    how = how or ["C", "C", "F", "strided", "reversed", "swapped", "readonly", "offset"][int(rng.integers(8))]
    if how == "C":
        return a
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.full(tuple(2 * n for n in a.shape), -77, dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    elif how == "reversed":
        v = np.empty_like(a)[tuple(slice(None, None, -1) for _ in a.shape)]
    elif how == "swapped":
        v = np.swapaxes(np.empty(a.shape[:-2] + a.shape[:-3:-1], dtype=a.dtype), -1, -2) if a.ndim > 1 else np.empty_like(a)
    elif how == "offset":
        v = np.full(a.size + 3, -77, dtype=a.dtype)[2 : 2 + a.size].reshape(a.shape)
    else:
        v = np.empty_like(a)
    v[...] = a
    if how == "readonly":
        v.flags.writeable = False
    return v


def _hang(signum, frame):
    raise Hang(f"more than {CASE_CPU_S} s of CPU time")


_MOD = None
_LINES = set()


def _watch_lines():
    """Record which lines of the code under test are executed"""
    mon = sys.monitoring
    pre = os.path.join(os.path.realpath(REPO), "zoidberg") + os.sep

    def line(code, no):
        fn = os.path.realpath(code.co_filename)
        if fn.startswith(pre):
            _LINES.add((fn[len(pre) :], no))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "zbcheck")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def _init(name):
    global _MOD
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # What the code under test prints is of no interest
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    _MOD = importlib.import_module(f"checks.{name}")
    # Code that collects memory without end fails before it takes the machine
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    _watch_lines()


def run_case(mod, case):
    m = Monitor(case)
    scratch = tempfile.mkdtemp(prefix="zbcheck-")
    cwd = os.getcwd()
    t0 = time.time()
    old = signal.signal(signal.SIGPROF, _hang)
    np.random.seed(int(case.get("seed", 0)) % 2**32)
    try:
        os.chdir(scratch)
        m.scratch = scratch
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        out = io.StringIO()
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                if case.get("sibling"):
                    _run_sibling(mod, case, scratch)
                    m.saw("cases run after a similar one")
                    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
                    np.random.seed(int(case.get("seed", 0)) % 2**32)
                mod.run(case, m)
    except Stop:
        pass
    except Hang as e:
        m.fail(f"did not terminate: {e}", where=_repo_frame())
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        m.fail(
            "raised on a valid input: " + type(e).__name__,
            message=str(e)[:300],
            where=_repo_frame(),
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    return {
        "case": case,
        "events": m.events,
        "margins": m.margins,
        "fails": m.fails,
        "known": m.known,
        "nontrivial": m.nontrivial,
        "notes": m.notes,
        "wall": time.time() - t0,
        "lines": sorted(_LINES),
    }


def _repo_frame():
    tb = traceback.extract_tb(sys.exc_info()[2])
    fr = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb]
    return fr[-4:]


def _work(case):
    r = run_case(_MOD, case)
    _LINES.clear()
    return r


def load_known(prop):
    """The committed list of genuine, unrepaired defects: {key: text}"""
    out = {}
    fn = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    out[d["key"]] = d["what"]
    return out


def main(argv):
    prop = argv[0]
    name = prop.lower()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    t0 = time.time()
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mod = importlib.import_module(f"checks.{name}")  # first, it may bring stand-ins for libraries
    import zoidberg

    if not os.path.realpath(zoidberg.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print(f"ERROR: zoidberg is imported from {zoidberg.__file__}, not {REPO}")
        return 2

    if len(argv) > 2 and argv[1] == "--replay":
        case = json.load(open(argv[2]))["case"]
        res = run_case(mod, case)
        print(json.dumps({k: _js(res[k]) for k in ("fails", "known", "events")}, indent=1))
        return 1 if res["fails"] else 0

    rng = np.random.default_rng([seed, int(hashlib.md5(prop.encode()).hexdigest()[:6], 16)])
    cases = []
    repeat = 1 if FAST else getattr(mod, "REPEAT", 1)
    if tier != "quick":
        repeat = (repeat + 1) // 2
    for _ in range(repeat):
        cases += mod.cases(tier, rng)
    cases = json.loads(json.dumps(cases, default=_js))
    for i, c in enumerate(cases):
        c.setdefault("seed", int(rng.integers(2**31)))
    share = getattr(mod, "SIBLINGS", 0.3)
    for c, u in zip(cases, np.random.default_rng([seed, 4711]).random(len(cases))):
        if u < share:
            c["sibling"] = True

    from concurrent.futures import ProcessPoolExecutor, as_completed
    import multiprocessing

    results = [None] * len(cases)
    ctx = multiprocessing.get_context("fork")
    deadline = t0 + (780 if tier == "quick" else 4 * 3600)
    # On a slow machine the repetitions are given up before the time is
    enough = t0 + (360 if tier == "quick" else 3 * 3600)
    # Long cases first, if the module knows
    order = list(range(len(cases)))
    if hasattr(mod, "cost"):
        order.sort(key=lambda i: -mod.cost(cases[i]))
    ex = ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_init, initargs=(name,))
    early = False
    problem = None
    try:
        futs = {ex.submit(_work, cases[i]): i for i in order}
        cut = False
        for f in as_completed(futs, timeout=max(1, deadline - time.time())):
            if f.cancelled():
                continue
            if not cut and time.time() > enough and sum(x is not None for x in results) * repeat >= len(cases):
                cut = True
                for g in futs:
                    g.cancel()
            r = results[futs[f]] = f.result()
            if r["fails"] and FAST or any(x["what"].startswith("did not terminate") for x in r["fails"]):
                early = True
                break
    except Exception as e:  # noqa
        # a violation already seen stands, whatever ended the workload
        early = any(r and r["fails"] for r in results)
        if not early:
            problem = e
    if early or problem:
        for p in list((ex._processes or {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    else:
        ex.shutdown()
    if problem:
        print(f"ERROR: the workload could not be completed: {type(problem).__name__} {problem}")
        return 2
    results = [r for r in results if r]

    return report(mod, prop, tier, seed, results, time.time() - t0)


def _ranges(nums):
    """Line numbers as text, e.g. '3-5,9'"""
    out = []
    for n in sorted(nums):
        if out and n == out[-1][1] + 1:
            out[-1][1] = n
        else:
            out.append([n, n])
    return ",".join(f"{a}-{b}" if b > a else f"{a}" for a, b in out)


def report(mod, prop, tier, seed, results, wall):
    events = {}
    margins = {}
    kinds = {}
    distinct = set()
    lines = {}
    known = {}
    bad = []
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for f, n in r.get("lines", []):
            lines.setdefault(f, set()).add(n)
        for k, v in r["margins"].items():
            margins[k] = max(margins.get(k, 0), v)
        c = r["case"]
        kinds[c.get("kind", "case")] = kinds.get(c.get("kind", "case"), 0) + 1
        if r["nontrivial"]:
            distinct.add(json.dumps({k: v for k, v in c.items()}, sort_keys=True))
        for k, w in r["known"]:
            known.setdefault(k, [w, 0])[1] += 1
        if r["fails"]:
            bad.append(r)

    listed = load_known(prop)
    for k, (w, n) in sorted(known.items()):
        if k not in listed:
            bad.append(
                {"case": {"kind": "known-finding", "seed": 0}, "fails": [{"what": f"unlisted finding {k}: {w}"}]}
            )

    samples = []
    seen = set()
    for r in results:
        k = r["case"].get("kind", "case")
        if k in seen or not r["nontrivial"]:
            continue
        seen.add(k)
        samples.append({"case": r["case"], "observed": r["events"], **({"notes": _js(r["notes"])} if r["notes"] else {})})
        if len(samples) >= 8:
            break
    rule = mod.RULE
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(distinct),
            "rule": rule,
            "samples": samples,
            "observed": events,
            "cases_by_kind": kinds,
            "largest_error_over_tolerance": {k: round(v, 6) for k, v in sorted(margins.items())},
            "lines_of_code_under_test_executed": {k: _ranges(v) for k, v in sorted(lines.items())},
            "known_findings_seen": {k: v[1] for k, v in known.items()},
            "slowest_case_s": round(max([r["wall"] for r in results if "wall" in r] or [0]), 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k, (w, n) in sorted(known.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[k]} [{k}; seen in {n} cases]")

    if not bad and (not events.get("assertions") or not distinct):
        print("ERROR: the monitors observed nothing")
        return 2
    print(
        f"{prop} {tier} seed={seed}: {len(results)} cases, {len(distinct)} non-trivial, "
        f"{events.get('assertions', 0)} assertions, {events.get('values compared', 0)} values, {wall:.1f} s"
    )
    if not bad:
        return 0
    rdir = os.path.join(EVIDENCE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for r in bad[:10]:
        txt = json.dumps({"property": prop, "case": r["case"], "fails": r["fails"]}, indent=1, default=_js)
        h = hashlib.md5(txt.encode()).hexdigest()[:10]
        fn = os.path.join(rdir, f"{prop}-{h}.json")
        with open(fn, "w") as f:
            f.write(txt + "\n")
        print(f"VIOLATION property={prop} replay={fn}")
        print("   " + json.dumps(r["fails"][0], default=_js)[:600])
    if len(bad) > 10:
        print(f"   ... {len(bad)} failing cases in total")
    return 1
