"""C04: the caching tracer is transparent"""
import glob
import os
import resource
import signal
import time

import numpy as np

from lib import fields
from lib.harness import rng_of

PROPERTY = "C04"
LEVEL = "fault_enumeration"
REPEAT = 8
TECHNIQUE = "runtime monitoring: request histories, crash points and shared cache directories checked against the uncached tracer"
RULE = (
    "Histories of requests to one cache directory through several caching tracers (restarts), each request repeated, permuted, or changed "
    "in one value (by 1 part in 1e12 to a factor, anywhere in x, z or y), digits moved between neighbours, x and z exchanged, reshaped, "
    "different settings; large arrays that differ only in the middle. Writers killed, or refused by the file system, after "
    "any number of bytes (every small offset, then a spread over the file), and several processes sharing the directory. Every answer is compared with the "
    "wrapped tracer. Non-trivial: at least one answer came from the cache, or a fault was delivered."
)
ASSUMPTIONS = [
    "start coordinates are arrays of equal shape, as the library itself passes them",
    "a writer dies or is refused at a byte of its output, by RLIMIT_FSIZE; the operating system itself does not crash",
]


class Spy:
    """A tracer whose answer depends on every bit of the request, and which counts the calls"""

    def __init__(self):
        self.calls = 0

    def follow_field_lines(self, x_values, z_values, y_values, rtol=None, nsteps=None):
        self.calls += 1
        return model(x_values, z_values, y_values, rtol, nsteps)


def model(x, z, y, rtol=None, nsteps=None):
    x = np.asarray(x, dtype=float)
    z = np.asarray(z, dtype=float)
    y = np.asarray(y, dtype=float)
    s = 0.0 if rtol is None else np.log10(rtol)
    s += 0.0 if nsteps is None else 0.01 * nsteps
    out = np.empty((len(y),) + x.shape + (2,))
    for i, yy in enumerate(y):
        out[i, ..., 0] = x + yy * (1 + s) + 0.5 * i
        out[i, ..., 1] = z - yy * (2 + s) - 0.25 * i
    return out


def cases(tier, rng):
    out = []
    q = tier == "quick"
    for i in range(60 if q else 600):
        out.append(dict(kind="history", n=int(rng.choice([1, 2, 3, 11, 12])), steps=40, name=i % 3))
    for i in range(6 if q else 40):
        out.append(dict(kind="large", n=int(rng.choice([1200, 5000]))))
    for i in range(12 if q else 60):
        out.append(dict(kind="real"))
    for i in range(16 if q else 100):
        for mode in ("killed", "refused"):
            out.append(dict(kind="crash", mode=mode, frac=i / (16 if q else 100), n=int(rng.integers(3, 200))))
    for b in range(0, 60, 3 if q else 1):
        out.append(dict(kind="crash", mode=["killed", "refused"][(b // 3) % 2], bytes=b, n=int(rng.integers(1, 50))))
    for i in range(10 if q else 80):
        out.append(dict(kind="shared", n=int(rng.integers(500, 4000)), procs=int(rng.integers(3, 7))))
    return out


def cost(c):
    return {"shared": 3, "large": 2}.get(c["kind"], 1)


def change(req, rng):
    """A request that differs from ``req``"""
    x, z, y, kw = (np.array(req[0]), np.array(req[1]), np.array(req[2]), dict(req[3]))
    t = int(rng.integers(8))
    if t <= 2:
        a = (x, z, y)[t]
        i = int(rng.integers(a.size))
        a.flat[i] += float(rng.choice([1e-12, 1e-9, 1e-6, 1e-3, 1.0])) * (1 + abs(a.flat[i]))
        if t == 2:
            y.sort()
    elif t == 3 and x.size > 1:
        p = rng.permutation(x.size)
        x = x.ravel()[p].reshape(x.shape)
    elif t == 4:
        x, z = z, x
    elif t == 5:
        kw = [{}, {"rtol": 1e-6}, {"rtol": 1e-9}, {"rtol": None}, {"nsteps": 7}, {"rtol": 1e-6, "nsteps": 11}][
            int(rng.integers(6))
        ]
    elif t == 6:
        y = np.append(y, y[-1] + 1.0)
    elif x.ndim == 1:
        # the same values on another shape
        x, z = x.reshape(1, -1), z.reshape(1, -1)
        if x.size % 2 == 0 and rng.random() < 0.5:
            x, z = x.reshape(2, -1), z.reshape(2, -1)
    elif x.ndim == 2:
        x, z = (x.T, z.T) if rng.random() < 0.7 else (x.ravel(), z.ravel())
    return x, z, y, kw


def digits(rng, n):
    """Requests which look alike when written one after the other"""
    a = [
        (np.array([1.0, 11.0]), np.array([2.0, 2.0])),
        (np.array([11.0, 1.0]), np.array([2.0, 2.0])),
        (np.array([1.0, 1.0]), np.array([12.0, 2.0])),
        (np.array([1, 2]), np.array([34, 5])),
        (np.array([1, 23]), np.array([4, 5])),
        (np.array([12, 3]), np.array([4, 5])),
        (np.array([1.0, -1.0]), np.array([-1.0, 1.0])),
        (np.array([-1.0, 1.0]), np.array([1.0, -1.0])),
        (np.array([1.0, 2.0]), np.array([3.0, 4.0])),
        (np.array([0.0, -0.5]), np.array([0.5, 0.0])),
    ]
    ys = [np.array([0.0, 1.0]), np.array([0.0, 1.0, 2.0]), [0.0, 12.0], [0, 1, 2], [0, 12], np.array([1.0, 0.0])]
    x, z = a[int(rng.integers(len(a)))]
    return x, z, ys[int(rng.integers(len(ys)))], {}


def cache(zb, spy, m, which=0):
    if which == 0:
        return zb.fieldtracer.CachingFieldTracer(spy)
    if which == 1:
        return zb.fieldtracer.CachingFieldTracer(spy, cachename=os.path.join(m.scratch, "cache_%s.txt"))
    os.makedirs("sub", exist_ok=True)
    return zb.fieldtracer.CachingFieldTracer(spy, cachename="sub/entry-%20.20s")


def ask(tr, req):
    x, z, y, kw = req
    return tr.follow_field_lines(x, z, y, **kw)


def key(req):
    x, z, y, kw = req
    return repr([np.asarray(x).tolist(), np.asarray(z).tolist(), np.asarray(y).tolist(), sorted(kw.items())])


def run(case, m):
    import zoidberg as zb

    rng = rng_of(case)
    k = case["kind"]
    if k == "history":
        spy = Spy()
        tr = cache(zb, spy, m, case["name"])
        seen = {}
        reqs = []
        n = case["n"]
        hits = 0
        for step in range(case["steps"]):
            u = rng.random()
            if u < 0.15 or not reqs:
                shape = (n,) if rng.random() < 0.6 else (2, n)
                req = (
                    np.round(rng.uniform(-3, 3, shape), int(rng.integers(1, 17))),
                    np.round(rng.uniform(-3, 3, shape), int(rng.integers(1, 17))),
                    [np.sort(rng.uniform(0, 3, int(rng.integers(2, 5)))), list(range(int(rng.integers(2, 5))))][
                        int(rng.integers(2))
                    ],
                    {},
                )
            elif u < 0.35:
                req = digits(rng, n)
            elif u < 0.7:
                req = change(reqs[int(rng.integers(len(reqs)))], rng)
            else:
                req = reqs[int(rng.integers(len(reqs)))]
            if rng.random() < 0.15:
                tr = cache(zb, spy, m, case["name"])  # restart
                m.saw("restarts")
            reqs.append(req)
            before = spy.calls
            keep = [np.array(a, copy=True) for a in req[:3]]
            got = ask(tr, req)
            m.saw("requests")
            m.close(got, model(*req[:3], **req[3]), "answer", rtol=1e-14, atol=1e-15, step=step)
            for a, b in zip(req, keep):
                m.equal(a, b, "request unchanged")
            if key(req) in seen:
                m.check(spy.calls == before, "repeated request traced again", step=step)
            if spy.calls == before:
                hits += 1
            seen[key(req)] = True
            if rng.random() < 0.1 and got.flags.writeable:
                got[...] = 1e30  # what the caller does with an answer is its own business
        m.saw("answers from the cache", hits)
        m.interesting(hits > 0)
    elif k == "large":
        spy = Spy()
        tr = cache(zb, spy, m)
        n = case["n"]
        x, z, y = rng.uniform(-1, 1, n), rng.uniform(-1, 1, n), np.array([0.0, 0.7])
        for step in range(8):
            if step:
                a = (x, z)[int(rng.integers(2))]
                a[int(rng.integers(n // 3, 2 * n // 3))] += float(rng.choice([1e-11, 1e-3]))
            for rep in range(2):
                before = spy.calls
                m.close(ask(tr, (x, z, y, {})), model(x, z, y), "answer", rtol=1e-14, atol=1e-15, step=step)
                m.saw("requests")
                if rep:
                    m.check(spy.calls == before, "repeated request traced again")
                    m.saw("answers from the cache")
        ys = np.linspace(0, 1, 1500)
        x, z = x[:2], z[:2]
        for step in range(3):
            m.close(ask(tr, (x, z, ys, {})), model(x, z, ys), "answer", rtol=1e-14, atol=1e-15)
            ys[int(rng.integers(500, 1000))] += 1e-7
        m.interesting()
    elif k == "real":
        spec = fields.random_spec(rng, ["slab", "custom", "straight"], length=1.0)
        f = fields.build(spec)
        plain = zb.fieldtracer.FieldTracer(f)
        tr = zb.fieldtracer.CachingFieldTracer(zb.fieldtracer.FieldTracer(f))
        shape = [(5,), (3, 4)][int(rng.integers(2))]
        x, z = rng.uniform(0.7, 1.4, shape), rng.uniform(-0.3, 0.3, shape)
        ys = np.array([0, 0.4, 1.0]) + float(rng.uniform(-2, 2))
        for rtol in (None, 1e-10, None, 1e-10):
            for yy in (ys, ys[::-1], ys[:2]):
                want = plain.follow_field_lines(x, z, yy, rtol=rtol)
                m.close(tr.follow_field_lines(x, z, yy, rtol=rtol), want, "same as direct tracing", rtol=1e-14, atol=1e-15)
                m.saw("requests")
        m.interesting()
    elif k == "crash":
        n = case["n"]
        req = (rng.uniform(-1, 1, n), rng.uniform(-1, 1, n), np.array([0.0, 0.3, 0.7]), {})
        want = model(*req[:3])
        size = n * 3 * 2 * 25
        lim = case["bytes"] if "bytes" in case else int(case["frac"] * size)
        died = child(zb, req, lim, case["mode"])
        m.saw(f"writers {case['mode']}", int(died != 0))
        m.saw("crash points")
        m.note("bytes allowed", lim)
        m.note("files left", sorted(os.path.basename(p) for p in glob.glob("*")))
        # a later process, twice
        for rep in range(2):
            spy = Spy()
            got = ask(cache(zb, spy, m), req)
            m.close(got, want, "answer after a crash", rtol=1e-14, atol=1e-15)
            m.saw("requests")
            if rep:
                m.check(spy.calls == 0, "repeated request traced again")
        # another crash of the same writer does not harm a complete entry
        child(zb, req, 10, case["mode"])
        m.close(ask(cache(zb, Spy(), m), req), want, "answer after a crash of a reader", rtol=1e-14, atol=1e-15)
        # the same process carries on after a refused write
        if case["mode"] == "refused":
            req2 = (req[0] + 1, req[1], req[2], {})
            tr = cache(zb, Spy(), m)
            with filelimit(lim):
                try:
                    ask(tr, req2)
                except OSError:
                    m.saw("requests failing with the disk")
            m.close(ask(tr, req2), model(*req2[:3]), "answer after a refused write", rtol=1e-14, atol=1e-15)
        m.interesting(died != 0)
    elif k == "shared":
        n, procs = case["n"], case["procs"]
        reqs = [
            (rng.uniform(-1, 1, n), rng.uniform(-1, 1, n), np.array([0.0, 0.3, 0.7]), {}) for _ in range(3)
        ]
        start = time.time() + 0.05
        kids = []
        for p in range(procs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                res = b"ok 0"
                try:
                    signal.setitimer(signal.ITIMER_PROF, 0)
                    g = np.random.default_rng([int(case["seed"]), p])
                    time.sleep(max(0, start - time.time()))
                    cnt = 0
                    for it in range(10):
                        j = it % 3 if it < 3 else int(g.integers(3))
                        spy = Spy()
                        tr = cache(zb, spy, m)
                        got = ask(tr, reqs[j])
                        want = model(*reqs[j][:3])
                        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-14, atol=1e-15):
                            raise ValueError("wrong answer")
                        cnt += spy.calls == 0
                    res = f"ok {cnt}".encode()
                except BaseException as e:  # noqa
                    res = f"bad {type(e).__name__} {e}".encode()[:300]
                os.write(w, res)
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        for pid, r in kids:
            txt = os.read(r, 1000).decode()
            os.close(r)
            os.waitpid(pid, 0)
            m.check(txt.startswith("ok"), "a process sharing the cache got no or a wrong answer", text=txt)
            if txt.startswith("ok"):
                m.saw("answers from the cache", int(txt.split()[1]))
        m.saw("requests", 10 * procs)
        m.saw("processes sharing a cache", procs)
        m.interesting()


class filelimit:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.sig)


def child(zb, req, nbytes, mode):
    """Make the request in a process which cannot write more than nbytes; 0 if it lived"""
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if mode == "killed" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, nbytes))
            zb.fieldtracer.CachingFieldTracer(Spy()).follow_field_lines(*req[:3], **req[3])
        except BaseException:  # noqa
            os._exit(3)
        os._exit(0)
    return os.waitpid(pid, 0)[1]
