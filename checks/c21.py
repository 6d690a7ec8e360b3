"""C21: inputs are left alone"""
import numpy as np

from lib import flows
from lib.harness import rng_of

PROPERTY = "C21"
LEVEL = "exploration"
REPEAT = 6
TECHNIQUE = "runtime monitoring: every library call of the workflows wrapped; deep snapshots of all arguments and of all earlier results compared before and after"
RULE = (
    "Workflows over the whole public API (fields, tracers, lines, grid generation, look up, maps, metrics, operators, DAGP, files, smoothing, boundaries, differences) with arguments given as "
    "plain, read-only, non-contiguous, big-endian arrays or lists. Before each call all arguments are copied deeply, after it compared bit by bit; all results are kept and compared with their copies at the end. Non-trivial: always."
)
ASSUMPTIONS = [
    "modify_maps and the writer's own state are changed on purpose and not judged",
    "attributes starting with an underscore are private caches",
]


def cases(tier, rng):
    q = tier == "quick"
    n = dict(mapping=24, generation=8, lines=24, lookup=24, tracing=24, operators=16)
    return [dict(kind=k, vary=bool(i % 3)) for k in flows.FLOWS for i in range(n.get(k, 12) * (1 if q else 8))]


def cost(c):
    return dict(mapping=3, generation=2).get(c["kind"], 1)


def run(case, m):
    rng = rng_of(case)
    vr = np.random.default_rng(case["seed"] + 1)
    results = []
    pinned = []

    def vary(a, lists=True):
        a = np.asarray(a)
        k = int(vr.integers(5 if lists else 4)) if case["vary"] else 0
        if k == 1:
            b = a.copy()
            b.setflags(write=False)
            m.saw("read-only arrays")
            return b
        if k == 2 and a.ndim:
            b = np.repeat(a, 2, axis=-1)[..., ::2]
            m.saw("non-contiguous arrays")
            return b
        if k == 3 and a.ndim > 1:
            m.saw("transposed arrays")
            return np.asfortranarray(a)
        if k == 4:
            m.saw("lists")
            return a.tolist()
        return a.copy()

    def call(fn, *args, **kw):
        name = getattr(fn, "__qualname__", str(fn))
        held = [*args, *kw.values()]
        # also what the method is bound to, unless it is meant to change
        me = getattr(fn, "__self__", None)
        if me is not None and type(me).__name__ not in ("MapWriter", "CachingFieldTracer"):
            held.append(me)
        before = flows.flatten(held)
        flags = [a.flags.writeable for a in held if isinstance(a, np.ndarray)]
        r = fn(*args, **kw)
        bad = flows.differences(before, flows.flatten(held))
        m.check(not bad, f"arguments of {name} unchanged", changed=bad[:5])
        m.check(flags == [a.flags.writeable for a in held if isinstance(a, np.ndarray)], f"flags of the arguments of {name} unchanged")
        m.saw("calls watched")
        m.saw("calls of " + name)
        results.append((name, r, flows.flatten(r)))
        pinned.append((name, held, before))
        return r

    flows.FLOWS[case["kind"]](rng, call, vary)
    for name, r, was in results:
        bad = flows.differences(was, flows.flatten(r))
        m.check(not bad, f"result of {name} unchanged by later calls", changed=bad[:5])
        m.saw("results watched")
    m.interesting()
