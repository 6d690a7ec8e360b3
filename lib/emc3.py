"""Stand-ins for the libraries the EMC3 tracer talks to (eudist, xemc3), field-aligned grids, and a reference for following lines on them"""
import sys
import types

import numpy as np
import xarray as xr


# ------------------------------------------------------------------ eudist
class PolyMesh:
    """Finds the cell of a quadrilateral mesh in which a point is: i * (number of cells in the second direction) + j, or -1"""

    searches = 0

    def __new__(cls, x, y):
        self = object.__new__(cls)
        self._x, self._y = np.array(x, dtype=float), np.array(y, dtype=float)
        return self

    def __init__(self, *args):
        pass

    def find_cell(self, rz, guess=-1):
        PolyMesh.searches += 1
        px, py = float(rz[0]), float(rz[1])
        x, y = self._x, self._y
        n = (x.shape[0] - 1) * (x.shape[1] - 1)
        assert -1 <= guess, guess
        c = [(x[:-1, :-1], y[:-1, :-1]), (x[:-1, 1:], y[:-1, 1:]), (x[1:, 1:], y[1:, 1:]), (x[1:, :-1], y[1:, :-1])]
        cr = [(b[0] - a[0]) * (py - a[1]) - (b[1] - a[1]) * (px - a[0]) for a, b in zip(c, c[1:] + c[:1])]
        e = 1e-14
        inside = ((np.min(cr, axis=0) >= -e) | (np.max(cr, axis=0) <= e)).ravel()
        if 0 <= guess < n and inside[guess]:
            return int(guess)
        k = np.nonzero(inside)[0]
        return int(k[0]) if len(k) else -1


# ------------------------------------------------------------------- xemc3
def _cut(ds, zone):
    """One zone without its padding"""
    ds = ds.isel(zone=zone)
    if "_plasma_map_dims" in ds:
        n = [int(v) for v in ds["_plasma_map_dims"].values]
        ds = ds.isel({k: slice(0, v) for k, v in zip(("r", "theta", "phi"), n) if k in ds.dims})
    return ds


class Accessor:
    def __init__(self, ds):
        self.data = ds

    def isel(self, **kw):
        ds = self.data
        kw = dict(kw)
        if "zone" in kw:
            ds = _cut(ds, kw.pop("zone"))
        for k, v in kw.items():
            d = "delta_" + k
            n = ds.sizes[k]
            v = v if v >= 0 else v + n + 1
            ds = ds.isel({k: v, d: 0} if v < n else {k: n - 1, d: 1})
        return ds

    def sel(self, phi):
        phi = float(phi)
        b = self.data["phi_bounds"].values
        k = np.nonzero((b[:, 0] <= phi) & (phi <= b[:, 1]))[0]
        if not len(k):
            raise KeyError(f"phi = {phi} is not in the grid")
        k = int(k[0])
        f = (phi - b[k, 0]) / (b[k, 1] - b[k, 0])
        ds = self.data.isel(phi=k)
        return ds.isel(delta_phi=0) * (1 - f) + ds.isel(delta_phi=1) * f

    def __getitem__(self, name):
        ds = self.data
        if not name.endswith("_corners"):
            return ds[name]
        a = ds[name[:-8] + "_bounds"].transpose("r", "theta", "delta_r", "delta_theta").values
        nr, nt = a.shape[:2]
        out = np.empty((nr + 1, nt + 1))
        out[:-1, :-1] = a[:, :, 0, 0]
        out[-1, :-1] = a[-1, :, 1, 0]
        out[:-1, -1] = a[:, -1, 0, 1]
        out[-1, -1] = a[-1, -1, 1, 1]
        return xr.DataArray(out, dims=("r_plus1", "theta_plus1"))

    evaluate = None  # function (R, phi, Z, values of the key) -> array

    def evaluate_at_rpz(self, r, phi, z, key, delta_phi=None):
        r, phi, z = np.broadcast_arrays(r, phi, z)
        return xr.Dataset({key: (tuple(f"dim_{i}" for i in range(r.ndim)), Accessor.evaluate(r, phi, z, self.data[key]))})


def install():
    if "eudist" not in sys.modules:
        if "zoidberg.fieldtracer" in sys.modules:
            raise RuntimeError("the stand-ins have to come first")
        m = types.ModuleType("eudist")
        m.PolyMesh = PolyMesh
        sys.modules["eudist"] = m
        xr.register_dataset_accessor("emc3")(Accessor)


# ------------------------------------------------------------------- grids
class Grid:
    """Nested surfaces around an axis, points following a twist; zones are ranges of surfaces"""

    def __init__(self, rng):
        self.R0, self.Z0 = rng.uniform(3, 6), rng.uniform(-0.5, 0.5)
        self.P = 2 * np.pi / int(rng.integers(1, 6))
        self.pmin = float(rng.choice([0.0, 0.0, rng.uniform(-1, 1)]))
        nphi = int(rng.integers(2, 9))
        w = 1 + rng.uniform(0, 1) * rng.random(nphi)
        self.phi = self.pmin + self.P * np.concatenate([[0], np.cumsum(w) / np.sum(w)])
        self.phi[-1] = self.pmin + self.P
        self.iota = rng.uniform(-0.6, 0.6) / self.P, rng.uniform(-0.6, 0.6) / self.P
        self.axis = rng.uniform(0, 0.05, 2)
        self.kappa, self.ell = rng.uniform(0.7, 1.4), rng.uniform(0, 0.15)
        nz = int(rng.choice([1, 1, 2, 3]))
        self.nt = int(rng.integers(12, 40))
        n = [int(v) for v in rng.integers(2, 6, nz)]
        s = 0.2 + np.concatenate([[0], np.cumsum(rng.uniform(0.03, 0.08, sum(n)))])
        self.smin, self.smax = s[0], s[-1]
        e = np.concatenate([[0], np.cumsum(n)])
        t0 = rng.uniform(0, 2 * np.pi)
        up = 1 if rng.random() < 0.8 else -1
        self.theta = t0 + up * 2 * np.pi * np.arange(self.nt + 1) / self.nt
        self.zones = [(s[a : b + 1], self.theta) for a, b in zip(e[:-1], e[1:])]
        if nz > 1 and rng.random() < 0.3:
            self.zones = self.zones[::-1]
        self.maxsag = 1 - np.cos(np.pi / self.nt)
        self.nr = n
        # corners (zone)(phi, r, theta, 2)
        self.corners = [np.array([self.pos(zs[:, None], zt[None, :], p) for p in self.phi]) for zs, zt in self.zones]

    def pos(self, s, t, p):
        """Surface and angle label -> position (..., 2)"""
        q = p - self.pmin
        a = t + (self.iota[0] + self.iota[1] * s) * q
        c = 2 * np.pi * q / self.P
        k = self.kappa * (1 + self.ell * np.sin(c))
        return np.stack(
            np.broadcast_arrays(self.R0 + self.axis[0] * np.cos(c) + s * np.cos(a), self.Z0 + self.axis[1] * np.sin(c) + k * s * np.sin(a)), axis=-1
        )

    def labels(self, R, Z, p):
        q = p - self.pmin
        c = 2 * np.pi * q / self.P
        k = self.kappa * (1 + self.ell * np.sin(c))
        u, v = R - self.R0 - self.axis[0] * np.cos(c), (Z - self.Z0 - self.axis[1] * np.sin(c)) / k
        s = np.hypot(u, v)
        return s, np.arctan2(v, u) - (self.iota[0] + self.iota[1] * s) * q

    def dataset(self, rng, b=True):
        nr, nt, nz, npl = max(len(z[0]) for z in self.zones) - 1, self.nt, len(self.zones), len(self.phi) - 1
        dims = ("zone", "r", "theta", "phi", "delta_r", "delta_theta", "delta_phi")
        out = {k: np.full((nz, nr, nt, npl, 2, 2, 2), np.nan) for k in ("R", "z")}
        sizes = np.zeros((nz, 3), dtype=int)
        for k, c in enumerate(self.corners):
            n = c.shape[1] - 1
            sizes[k] = n, nt, npl
            for i in (0, 1):
                for j in (0, 1):
                    for m in (0, 1):
                        blk = c[m : npl + m, i : n + i, j : nt + j].transpose(1, 2, 0, 3)
                        out["R"][k, :n, :, :, i, j, m] = blk[..., 0]
                        out["z"][k, :n, :, :, i, j, m] = blk[..., 1]
        ds = xr.Dataset(
            {
                "R_bounds": (dims, out["R"]),
                "z_bounds": (dims, out["z"]),
                "phi_bounds": (("zone", "phi", "delta_phi"), np.tile(np.stack([self.phi[:-1], self.phi[1:]], -1), (nz, 1, 1))),
                "_plasma_map_dims": (("zone", "three"), sizes),
            }
        )
        self.b = rng.uniform(1, 3, (nz, nr, nt, npl, 2, 2, 2))
        ds["bf_bounds"] = (dims, self.b)
        return ds

    # ------------------------------------------------------------ reference
    def plane(self, p):
        """Corners of the zones at an angle within the grid"""
        k = int(np.clip(np.searchsorted(self.phi, p, "right") - 1, 0, len(self.phi) - 2))
        f = (p - self.phi[k]) / (self.phi[k + 1] - self.phi[k])
        return [(1 - f) * c[k] + f * c[k + 1] for c in self.corners]

    def locate(self, rz, plane):
        """(zone, i, j, al, be) of the cell with the point, or None outside"""
        for zid, g in enumerate(plane):
            A, a, b = g[:-1, :-1], g[:-1, 1:] - g[:-1, :-1], g[1:, :-1] - g[:-1, :-1]
            c = g[1:, 1:] - A - a - b
            d = rz - A
            near = np.sum(d**2, -1) < 4 * np.max(np.sum((g[1:, 1:] - A) ** 2, -1) + np.sum((a - b) ** 2, -1))
            ii, jj = np.nonzero(near)
            if not len(ii):
                continue
            a, b, c, d = a[ii, jj], b[ii, jj], c[ii, jj], d[ii, jj]
            al = be = np.full(len(ii), 0.5)
            for _ in range(30):
                r = d - al[:, None] * a - be[:, None] * b - (al * be)[:, None] * c
                u, v = a + be[:, None] * c, b + al[:, None] * c
                det = u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0]
                det = np.where(det == 0, 1e-30, det)
                al, be = al + (r[:, 0] * v[:, 1] - r[:, 1] * v[:, 0]) / det, be + (u[:, 0] * r[:, 1] - u[:, 1] * r[:, 0]) / det
                al, be = np.clip(al, -3, 4), np.clip(be, -3, 4)
            r = np.sum((d - al[:, None] * a - be[:, None] * b - (al * be)[:, None] * c) ** 2, -1)
            e = np.maximum.reduce([-al, al - 1, -be, be - 1]) + np.where(r < 1e-20, 0, 9)
            k = int(np.argmin(e))
            if e[k] < 1e-9:
                return zid, int(ii[k]), int(jj[k]), al[k], be[k]
        return None

    @staticmethod
    def at(cell, plane):
        zid, i, j, al, be = cell
        g = plane[zid]
        return (1 - al) * (1 - be) * g[i, j] + al * (1 - be) * g[i, j + 1] + (1 - al) * be * g[i + 1, j] + al * be * g[i + 1, j + 1]

    def turns(self, p):
        """angle within the grid, number of periods"""
        n = int(np.floor((p - self.pmin) / self.P))
        return min(max(p - n * self.P, self.pmin), self.pmin + self.P), n

    def follow(self, rz, p0, p1):
        """Position at p1 of the line through rz at p0, or None if it left the grid"""
        q0, n0 = self.turns(p0)
        q1, n1 = self.turns(p1)
        ends = self.plane(self.phi[0]), self.plane(self.phi[-1])
        cell = self.locate(rz, self.plane(q0))
        up = n1 > n0
        for _ in range(abs(n1 - n0)):
            if cell is None:
                return None
            rz = self.at(cell, ends[1 if up else 0])
            cell = self.locate(rz, ends[0 if up else 1])
        return None if cell is None else self.at(cell, self.plane(q1))
