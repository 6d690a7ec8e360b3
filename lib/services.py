"""Stand-ins for the services and libraries zoidberg talks to (osa, requests, fusionsc)

They answer from closed-form fields, write every request to a log in the
scratch directory (shared by all processes), and fail when told to.
"""
import fcntl
import json
import os
import sys
import time
import types

import numpy as np

R0, Z0 = 5.5, 0.1


class Faults:
    """Log of requests, shared by all processes, and the plan of failures

    plan: {key: [what happens to the first, second, ... request with this key]}
    with what one of "ok", "error", "oserror", "timeout", "interrupt", "short", "hang", "empty"
    """

    def __init__(self, directory, plan=None, hang=60.0):
        self.fn = os.path.join(directory, "requests.log")
        self.plan = plan or {}
        self.hang = hang
        open(self.fn, "w").close()

    def request(self, key, **data):
        with open(self.fn, "r+") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            n = sum(1 for line in f if json.loads(line)["key"] == key)
            plan = self.plan.get(key, self.plan.get("*", []))
            what = plan[n] if n < len(plan) else (plan[-1] if plan and plan[-1].startswith("always ") else "ok")
            what = what.replace("always ", "")
            f.seek(0, 2)
            f.write(json.dumps(dict(key=key, attempt=n, what=what, pid=os.getpid(), **data)) + "\n")
        if what == "error":
            raise RuntimeError("the service failed")
        if what == "oserror":
            raise ConnectionResetError("connection reset")
        if what == "timeout":
            raise TimeoutError("timed out")
        if what == "interrupt":
            raise KeyboardInterrupt
        if what == "hang":
            _sleep(self.hang)
            raise RuntimeError("the service hung")
        return what

    def log(self):
        return [json.loads(line) for line in open(self.fn)]


_sleep = time.sleep


class Thing:
    """A bag of attributes"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Types:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Thing


def angle(phi, iota):
    """poloidal angle of the field line relative to the axis at phi"""
    return iota * phi + 0.3 * np.sin(phi)


def follow(R, Z, phi0, phi1, iota):
    """Position at phi1 of the line through R, Z at phi0: rotation about the axis"""
    a = angle(phi1, iota) - angle(phi0, iota)
    dr, dz = R - R0, Z - Z0
    return R0 + dr * np.cos(a) - dz * np.sin(a), Z0 + dr * np.sin(a) + dz * np.cos(a)


def cartesian_field(x, y, z, par):
    """A field without any symmetry; par identifies the configuration"""
    return (
        0.3 * par + 0.1 * x - 0.2 * y + 0.05 * z * x + 0.04 * z**3,
        0.2 + 0.3 * x + 0.07 * par * y - 0.1 * y * z**2,
        -0.4 + 0.1 * par * z + 0.02 * x * y + 0.05 * z**2 + 0.01 * x**2,
    )


def plasma_field(r, phi, z):
    return 0.01 * r**2 * np.cos(phi), 0.02 * z**2 + 0.03 * np.sin(phi), 0.005 * r * z**3


def par_of(config):
    """The number identifying a magnetic configuration"""
    if hasattr(config, "configIds"):
        return 1.0 + 0.1 * config.configIds
    ids, cur = np.asarray(config.coilsIds), np.asarray(config.coilsIdsCurrents)
    if len(ids) != len(cur) or len(set(ids.tolist())) != len(ids):
        raise ValueError("coils and currents do not match")
    # depends on which current is in which coil
    return 2.0 + float(np.sum(cur * np.cos(ids))) * 1e-4


class Service:
    def __init__(self, world):
        self.w = world

    def trace(self, p, config, task, *rest):
        x, y, z = (np.array(v, dtype=float).ravel() for v in (p.x1, p.x2, p.x3))
        if not (x.shape == y.shape == z.shape):
            raise ValueError("points")
        R, phi = np.hypot(x, y), np.arctan2(y, x)
        sense = self.w.sense * (-1 if getattr(config, "inverseField", False) else 1)
        lines = []
        if hasattr(task, "lines"):
            for i in range(len(x)):
                ph = phi[i] + sense * np.linspace(0, task.step / R[i] * task.lines.numSteps, task.lines.numSteps + 1)
                lines.append(self._line(R[i], z[i], phi[i], ph))
            return Thing(lines=lines)
        dphi = abs(task.linesPhi.phi)
        par = par_of(config)
        what = self.w.faults.request(
            self.w.key(R, z, dphi),
            R=R.tolist(), Z=z.tolist(), phi0=phi.tolist(), dphi=float(task.linesPhi.phi), step=float(task.step), sense=int(sense), par=par,
        )
        for i in range(len(x)):
            ph = phi[i] + sense * dphi * np.linspace(0, 1, 4)
            lines.append(self._line(R[i], z[i], phi[i], ph))
        if what == "short":
            lines = lines[:-1]
        if what == "empty":
            lines = []
        return Thing(lines=lines)

    def _line(self, R, z, phi0, ph):
        r, zz = follow(R, z, phi0, ph, self.w.iota)
        return Thing(vertices=Thing(x1=list(r * np.cos(ph)), x2=list(r * np.sin(ph)), x3=list(zz)))

    def magneticField(self, *args, osa_timeout=None):
        if isinstance(args[0], str):
            par, pos = 0.01 * sum(map(ord, args[0])), args[1]
        else:
            pos, par = args[0], par_of(args[1])
        x, y, z = (np.array(v, dtype=float) for v in (pos.x1, pos.x2, pos.x3))
        if not (x.ndim == 1 and x.shape == y.shape == z.shape):
            raise ValueError("points")
        what = self.w.faults.request("field", n=len(x), par=par)
        b = cartesian_field(x, y, z, par)
        if what == "short":
            b = [v[:-1] for v in b]
        return Thing(field=Thing(x1=list(b[0]), x2=list(b[1]), x3=list(b[2])))

    def getPlasmaField(self, a, url, points, b):
        r, phi, z = (np.array(v, dtype=float) for v in (points.x1, points.x2, points.x3))
        self.w.faults.request("plasma", n=len(r))
        v = plasma_field(r, phi, z)
        return Thing(x1=list(v[0]), x2=list(v[1]), x3=list(v[2]))


class World:
    """Installs the stand-ins while in use"""

    def __init__(self, directory, sense=1, iota=0.37, plan=None, up=True, delays=None, key=None):
        self.sense, self.iota, self.up = sense, iota, up
        self.faults = Faults(directory, plan)
        self.key = key or (lambda R, Z, dphi: "trace")
        self.delays = delays
        self.traced = []

    def __enter__(self):
        world = self

        class Client:
            def __init__(self, url, **kw):
                self.types = Types()
                self.service = Service(world)

        class Response:
            def raise_for_status(self):
                if not world.up:
                    raise OSError("503")

        osa = types.ModuleType("osa")
        osa.Client = Client
        req = types.ModuleType("requests")
        req.get = lambda url, timeout=None: Response()
        fsc = types.ModuleType("fusionsc")
        fsc.flt = Thing(poincareInPhiPlanes=self.poincare)
        self.saved = {k: sys.modules.get(k) for k in ("osa", "requests", "fusionsc")}
        sys.modules.update(osa=osa, requests=req, fusionsc=fsc)
        self.sleep = time.sleep
        rng = np.random.default_rng(self.delays) if self.delays is not None else None

        def nap(s):
            if rng is not None:
                # a different order of the workers every time
                _sleep(float(np.random.default_rng([int(rng.integers(2**31)), os.getpid()]).uniform(0, 0.05)))

        time.sleep = nap
        import zoidberg.field

        self.field = zoidberg.field
        self.tracer = zoidberg.field.tracer
        zoidberg.field.tracer = None
        return self

    def __exit__(self, *a):
        time.sleep = self.sleep
        self.field.tracer = self.tracer
        for k, v in self.saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v

    # fusionsc
    def poincare(self, points, field, planes, turns, direction="ccw", **kw):
        X, Y, Z = (np.asarray(v, dtype=float) for v in points)
        R, phi0 = np.hypot(X, Y), np.arctan2(Y, X)
        self.traced.append(dict(n=R.size, direction=direction, planes=[float(p) for p in planes], kw=kw))
        sense = {"ccw": 1, "cw": -1}[direction]
        out = np.empty((5, len(planes), *R.shape, turns))
        for i, p in enumerate(planes):
            # the first time the line crosses the plane in this direction
            d = sense * np.mod(sense * (p - phi0), 2 * np.pi)
            r, z = follow(R, Z, phi0, phi0 + d, self.iota)
            for t in range(turns):
                for c, v in enumerate((r * np.cos(p), r * np.sin(p), z, 0, 0)):
                    out[c, i, ..., t] = v
        return out
