"""Synthetic radar, lidar, model, microwave radiometer and disdrometer files of one scene, and the gridded fields they should lead to."""
import os

import atmoslib
import warnings
import netCDF4
import numpy as np
from hypothesis import strategies as st
from numpy import ma

from vh import rng

T0 = 273.16
DATE = "2023-05-17"
N_GRID = 2880
G = 9.80665


@st.composite
def scene_case(draw, **fixed):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    K = S(2, 3, 6, 12, 12, 30)
    stride = fixed.get("stride", S(1, 1, 1, 1, 1, 24))
    K = fixed.get("K", 40 if stride > 1 else K)
    d = {
        "K": K, "stride": stride, "steady": False, "s0": S(0, 1, 700, 1439, N_GRID - K) if stride == 1 else S(0, 700, 1500), "m": S(8, 15, 30, 30, 45), "dz": S(20.0, 45.0, 90.0, 150.0), "grid": S("uniform", "uniform", "chirp"), "alt": S(0.0, 12.0, 350.5, 2000.0),
        "radar": S("METEK MIRA-35", "METEK MIRA-35", "RPG-Radiometer Physics RPG-FMCW-94", "BASTA BASTA", "NCAS Copernicus"), "ldr": S("ldr", "ldr", "none", "sldr"), "width": S(True, True, False),
        "nyq": S("scalar", "scalar", "chirp", "chirp1", "full", "prf"), "vn": S(5.0, 10.0, 30.0), "dealias": S(None, None, None, "all"), "density": S("one", "normal", "normal", "dense"), "gap": S(0.0, 0.0, 0.2),
        "lidar_dt": S(7.0, 20.0, 45.0), "lidar_dz": S(15.0, 40.0, 100.0), "lidar_gap": S(0.0, 0.0, 0.3), "lidar_top": S(1.0, 1.0, 0.5), "lidar_mask": S(*[0.0] * 8, *[0.3] * 4, 2.0, 3.0),
        "model": S("ecmwf", "gdas1", "icon", "harmonie", "era5", "arpege"), "nt": S(2, 5, 25), "model_span": S("day", "day", "day", "day", "part"), "model_gap": S(0, 0, 0, 1), "sfc": S("none", "none", "height", "geopotential"),
        "temp": S(250, 264, 274, 280, 288, 298), "mwr": S("none", "ok", "ok", "gaps", "neg", "flags", "masked"), "dis": S("none", "none", "dry", "rain", "rain", "gaps"), "wawa": S("none", "none", "rain", "snow", "mixed"),
        "weather": S("mixed", "mixed", "rain", "rain", "insects", "clouds", "noise", "empty", "bugs"), "offset": S(None, None, None, 1.5, -2.0), "rr": S(False, True), "loc": S("scalar", "time"), "seed": draw(st.integers(0, 2**31)),
    }
    if fixed.pop("busy", False) and S(True, True, True, True, False):  # more cases with several kinds of target
        d.update(lidar_mask=S(0.0, 0.0, 0.3), gap=S(0.0, 0.0, 0.2), lidar_dt=S(7.0, 20.0), weather=S("mixed", "bugs", "rain", "bugs", "clouds", "insects", "noise"), m=S(30, 45, 15), temp=S(274, 280, 288, 264, 250, 298, 240), model_span=S("day", "day", "part"), mwr=S("ok", "ok", "none", "gaps", "neg", "flags", "masked"), dis=S("rain", "none", "rain", "dry", "gaps"))
        if stride == 1:
            d["K"] = S(12, 30, 6)
            d["s0"] = S(0, 1, 700, 1439, N_GRID - d["K"])
    d.update(fixed)
    d["freq"] = d.get("freq") or (94.0 if "94" in d["radar"] or "BASTA" in d["radar"] else S(35.5, 35.5, 35.15))
    return d


class Scene:
    def __init__(self, case):
        self.case = case
        r = self.r = rng(case["seed"])
        m, K = case["m"], case["K"]
        self.alt = case["alt"]
        if case["grid"] == "uniform":
            rg = case["dz"] * (np.arange(m) + r.choice([1.0, 2.0, 3.7]))
        else:
            rg = case["dz"] * (1.5 + np.cumsum(np.where(np.arange(m) < m // 2, 0.6, 1.0)))
        self.range = rg.astype("f4")
        self.height = (self.range + np.float32(self.alt)).astype("f4")
        self.h = self.height.astype(float)
        self.agl = self.h - self.alt
        self.steps = case["s0"] + case.get("stride", 1) * np.arange(K)
        self._model()
        self._weather()
        self._radar()
        self._lidar()
        self._mwr()
        self._dis()

    # -- model ---------------------------------------------------------
    def _model(self):
        r, case = self.r, self.case
        nt = case["nt"]
        c = (self.steps.mean() + 0.5) / 120
        self.mt = np.linspace(0, 24, nt) if case["model_span"] == "day" else np.linspace(max(0, c - 0.03), min(24, c + 3), nt)
        top = self.agl[-1] + 100
        sfc = {"none": self.alt, "height": self.alt - 5.5, "geopotential": self.alt - 7.0}[case["sfc"]]
        self.sfc = sfc
        nl = 7
        gaps = np.cumsum(r.uniform(0.15, 1, nl - 1))
        lev = np.concatenate([[0.0], gaps / gaps[-1]]) * (top + 10)
        self.mlev = lev.astype("f4")  # above ground
        self.mheight = self.mlev.astype(float) + (np.float32(sfc) if case["sfc"] == "height" else np.float32(sfc * G) / G if case["sfc"] == "geopotential" else sfc)
        gamma = r.choice([0.0045, 0.0065, 0.009])
        fT = case["temp"] - gamma * self.mlev + np.concatenate([[0], r.normal(0, 0.7, nl - 1)])
        fT = np.maximum(fT, 190)
        aT = r.uniform(-1.5, 1.5, nt) if r.random() < 0.7 and not case.get("steady") else np.zeros(nt)
        self.T = (fT[None, :] + aT[:, None]).astype("f4")
        fP = 101325 * np.exp(-(self.mlev + self.alt) / 8000)
        self.P = (fP[None, :] + r.uniform(-100, 100, nt)[:, None] * (not case.get("steady"))).astype("f4")
        rh = r.uniform(0.3, 0.95, nl)
        es = atmoslib.saturation_vapor_pressure(fT)
        fq = 0.622 * rh * es / fP
        self.q = (fq[None, :] * np.ones((nt, 1))).astype("f4")
        self.u = np.repeat(r.uniform(-20, 20, nt)[:, None], nl, 1).astype("f4") + self.mlev * np.float32(0.001)
        self.mgap = np.zeros(nt, bool)
        if case["model_gap"] and nt > 4:
            self.mgap[r.integers(1, nt - 1)] = True
        self.rhm = np.repeat(rh[None, :], nt, 0).astype("f4")

    def model_at(self, field, heights, level_based=False):
        """Piecewise-linear model field (separable in time and height) at the grid steps x heights; masked where the model is."""
        f = np.asarray(field, float)
        ok = ~self.mgap
        t = (np.arange(N_GRID) + 0.5) / 120
        t = t[self.steps]
        out = ma.masked_all((len(t), len(heights)))
        mask = np.interp(t, self.mt, self.mgap.astype(float)) >= 0.5
        mt, fv = self.mt[ok], f[ok]
        for k in range(len(t)):
            if mask[k] or t[k] < self.mt[0] or t[k] > self.mt[-1]:
                continue
            prof = np.array([np.interp(t[k], mt, fv[:, j]) for j in range(f.shape[1])])
            out[k] = np.interp(heights, self.mheight, prof)
        return out

    # -- weather on the grid steps ---------------------------------------
    def _weather(self):
        r, case = self.r, self.case
        K, m = case["K"], case["m"]
        sh = (K, m)
        self.Z, self.v, self.ldr, self.width = (np.full(sh, np.nan) for _ in range(4))
        self.beta = np.full(sh, np.nan)
        self.raining = np.zeros(K, bool)
        prof = np.interp(self.h, self.mheight, self.T.mean(axis=0).astype(float))
        below = np.where(prof < T0)[0]
        j0 = int(below[0]) if len(below) else m - 1
        kind = case["weather"]

        def put(k, j, Z, v, ldr, width):
            self.Z[k, j], self.v[k, j], self.ldr[k, j], self.width[k, j] = Z, v, ldr, width

        def run():
            a = r.integers(0, K)
            return range(a, int(min(K, a + r.integers(1, K + 1))))

        def layer(lo=0, hi=None):
            hi = m if hi is None else int(np.clip(hi, 1, m))
            a = r.integers(min(lo, hi - 1), hi)
            return range(a, int(min(hi, a + r.integers(1, max(2, m // 2)))))

        def ice():
            base = r.uniform(-35, 5)
            hot = r.random() < 0.25
            js = layer(min(j0, m - 1), m)
            for k in run():
                for j in js:
                    put(k, j, base + r.normal(0, 2), r.uniform(-1.5, 0.2), r.uniform(-12, -5) if hot else r.uniform(-32, -22), r.uniform(0.1, 0.45))

        def rain():
            top = int(min(m, j0 + r.integers(2, 12)))
            peak = int(np.clip(j0 + r.integers(-2, 2), 0, m - 1))
            depth = r.integers(2, 6)
            strong = r.random() < 0.8
            bright = r.random() < 0.8
            for k in run():
                self.raining[k] = True
                jit = r.integers(-1, 2) if r.random() < 0.4 else 0
                for j in range(top):
                    x = np.clip((peak + jit - j) / depth + 0.5, 0, 1)  # melted fraction
                    z = (12 if strong else -5) + r.normal(0, 2)
                    v = -1 - (4.5 if strong else 2) * x + r.normal(0, 0.1)
                    ld = -27 + (12 * np.exp(-(((j - peak - jit) / 1.6) ** 2)) if bright else 0) + r.normal(0, 0.7)
                    put(k, j, z, v, ld, 0.2 + 0.5 * x + r.normal(0, 0.02))

        def drizzle():
            js = layer(0, max(1, j0))
            for k in run():
                for j in js:
                    put(k, j, r.uniform(-30, -10), r.uniform(-2, -0.2), r.uniform(-30, -20), r.uniform(0.1, 0.4))

        def insects():
            js = layer(0, max(1, j0 + r.integers(-2, 4)))
            for k in run():
                for j in js:
                    if r.random() < 0.8:
                        put(k, j, r.uniform(-50, -15), r.uniform(-1, 1), r.uniform(-18, -4), r.uniform(0.05, 0.3))

        def clutter():
            for k in run():
                for j in range(min(m, int(r.integers(1, 12)))):
                    put(k, j, r.uniform(-40, 0), r.uniform(-0.08, 0.08), r.uniform(-30, -5), r.uniform(0.05, 0.3))

        def speckle():
            for k, j in zip(*np.where(r.random(sh) < 0.03)):
                put(k, j, r.uniform(-40, 10), r.uniform(-5, 4.9), r.uniform(-30, -5), r.uniform(0.1, 0.9))

        def liquid():
            jc = r.integers(1, m)
            amp = 10 ** r.uniform(-5.8, -4)
            wid = r.choice([0.7, 1.2, 2.0])
            radar = r.random()
            for k in run():
                c = int(np.clip(jc + r.integers(-1, 2), 0, m - 1))
                for j in range(max(0, c - 4), min(m, c + 5)):
                    b = amp * np.exp(-(((j - c) / wid) ** 2)) * r.uniform(0.9, 1.1)
                    if b > 1e-9:
                        self.beta[k, j] = b
                    if radar < 0.6 and c - 2 <= j <= c + 2:
                        put(k, j, -30 + (2 * (j - c) if radar < 0.3 else -2 * (j - c)) + r.normal(0, 0.3), r.uniform(-0.7, 0.5), r.uniform(-32, -22), r.uniform(0.1, 0.3))
                if radar >= 0.5 and r.random() < 0.7:
                    self.beta[k, min(m, c + 5):] = np.nan

        def aerosol():
            top = int(r.integers(1, m + 1))
            for k in run():
                for j in range(top):
                    self.beta[k, j] = 10 ** r.uniform(-7, -6)

        def coldlidar():
            js = layer(m // 3, m)
            for k in run():
                for j in js:
                    if r.random() < 0.8:
                        self.beta[k, j] = 10 ** r.uniform(-7.5, -6)

        def bugs():
            """Light rain with a melting layer next to profiles full of insects."""
            peak = int(np.clip(j0 + r.integers(-1, 2), 0, m - 1))
            for k in range(K):
                if r.random() < 0.5:
                    for j in range(min(m, peak + 6)):
                        x = np.clip((peak - j) / 3 + 0.5, 0, 1)
                        put(k, j, -9 + r.normal(0, 1), -1 - 3.5 * x + r.normal(0, 0.1), -27 + 14 * np.exp(-(((j - peak) / 1.6) ** 2)) + r.normal(0, 0.5), 0.2 + 0.5 * x)
                else:
                    for j in range(max(0, peak - int(r.integers(0, 9))), min(m, peak + 4)):
                        if r.random() < 0.9:
                            put(k, j, r.uniform(-50, -25), r.uniform(-1, 1), r.uniform(-12, -4), r.uniform(0.05, 0.2))

        menu = {
            "bugs": [bugs, speckle, aerosol, bugs],
            "mixed": [ice, aerosol, rain, drizzle, insects, clutter, speckle, liquid, liquid, coldlidar], "rain": [aerosol, ice, rain, rain, liquid, clutter, insects], "insects": [aerosol, insects, insects, rain, drizzle, liquid, clutter],
            "clouds": [coldlidar, aerosol, ice, ice, liquid, liquid, liquid, drizzle], "noise": [speckle, coldlidar, liquid], "empty": [],
        }[kind]
        for f in menu:
            if r.random() < 0.75:
                f()
        if case.get("stripes"):
            a = r.integers(0, m - 4)
            self.beta[:, :8] = np.where(np.isnan(self.beta[:, :8]), 3e-7, self.beta[:, :8])
            for k in range(K):
                for j in range(a, a + r.integers(1, 4)):
                    put(k, j, r.uniform(-40, -20), r.uniform(-1, 1), r.uniform(-30, -20), r.uniform(0.1, 0.3))
            for _ in range(r.integers(2, 8)):
                k, wide = r.integers(0, K), r.integers(1, 3)
                for k in range(k, min(K, k + wide)):
                    for j in range(m):
                        if r.random() < 0.95 and np.isnan(self.Z[k, j]):
                            put(k, j, r.uniform(-40, -20), r.uniform(-1, 1), r.uniform(-30, -20), r.uniform(0.1, 0.3))
            for _ in range(r.integers(0, 4)):
                j = r.integers(0, m)
                for k in range(K):
                    if r.random() < 0.6 and np.isnan(self.Z[k, j]):
                        put(k, j, r.uniform(-40, -20), r.uniform(-1, 1), r.uniform(-30, -20), r.uniform(0.1, 0.3))
        bad = r.random() < 0.3
        self.lost = (r.random(sh) < 0.02) if bad else np.zeros(sh, bool)  # pixels where only some moments are missing

    def nearest_step(self, t):
        return np.array([np.argmin(np.abs((self.steps + 0.5) / 120 - x)) for x in t])

    # -- instruments -----------------------------------------------------
    def _radar(self):
        r, case = self.r, self.case
        K, m = case["K"], case["m"]
        t, k = [], []
        for i in range(K):
            n = {"one": 1, "normal": r.integers(1, 4), "dense": r.integers(3, 7)}[case["density"]]
            if r.random() < case["gap"]:
                n = 0
            for u in np.sort(r.uniform(0.05, 0.95, n)):
                t.append((self.steps[i] + u) / 120)
                k.append(i)
        if len(t) < 2:
            for i in (0, K - 1):
                t.append((self.steps[i] + r.uniform(0.1, 0.9)) / 120)
                k.append(i)
            o = np.argsort(t)
            t, k = [t[i] for i in o], [k[i] for i in o]
        self.rt, self.rk = np.array(t), np.array(k)
        n = len(t)

        def spread(x, s):
            y = x[self.rk] + r.normal(0, s, (n, m))
            return y

        drop = (r.random((n, m)) < r.choice([0, 0, 0.1])) | np.isnan(self.Z[self.rk])
        self.nyq = np.full((n, m), case["vn"])
        self.nyq_file, self.chirps = np.float32(case["vn"]), None
        if case["nyq"].startswith("chirp"):
            start = np.array([0, max(1, m // 3), max(2, 2 * m // 3)])
            fv = np.array([case["vn"], case["vn"] * 0.8, case["vn"] * 0.5])
            per = r.random() < 0.5
            if per:
                fv = fv * r.choice([1.0, 0.9], (n, 1))
            self.nyq_file = fv.astype("f4")
            self.chirps = start + (1 if case["nyq"] == "chirp1" else 0)
            self.nyq = np.repeat(np.broadcast_to(np.atleast_2d(self.nyq_file).astype(float), (n, 3)), np.diff(np.append(start, m)), axis=1)
        elif case["nyq"] == "full":
            self.nyq_file = (case["vn"] * r.choice([1.0, 0.8], (n, m))).astype("f4")
            self.nyq = self.nyq_file.astype(float)
        v = spread(self.v, 0.15 if r.random() < 0.7 else 0.02)
        vl = np.where(np.isnan(v), 0, v)
        clut = np.abs(self.v[self.rk]) < 0.08
        vl = np.where(clut, self.v[self.rk] + r.normal(0, 0.005, (n, m)), vl)
        r2 = np.random.default_rng(case["seed"] + 17)
        if r2.random() < 0.25:  # upward velocities around the limit of the artifact of the first gate
            vl[:, 0] = r2.uniform(3.2, 4.8, K)[self.rk] + r2.normal(0, 0.02, n)
        if case["dealias"] is None:
            vl = (vl + self.nyq) % (2 * self.nyq) - self.nyq
        lost = self.lost[self.rk]
        which = r.integers(0, 3, (n, m))
        f = lambda x, i: ma.array(np.where(np.isnan(x), 0, x).astype("f4"), mask=drop | (lost & (which == i)))  # noqa
        self.Zs, self.vs = f(spread(self.Z, 0.7), 0), f(vl, 1)
        self.ldrs, self.widths = f(spread(self.ldr, 0.5), 3), f(np.abs(spread(self.width, 0.01)), 2)
        if r.random() < 0.3:
            self.ldrs[r.random((n, m)) < 0.2] = ma.masked
        self.rr = np.where(self.raining[self.rk], r.uniform(0, 5, n), 0).astype("f4") / np.float32(3.6e6)
        self.lat = 60 + (r.uniform(0, 0.01, n) if case["loc"] == "time" else 0.0)
        self.lon = 24 + (r.uniform(0, 0.01, n) if case["loc"] == "time" else 0.0)

    def _lidar(self):
        r, case = self.r, self.case
        K = case["K"]
        a, b = self.steps[0] * 30 - r.choice([100, 20, -20]), self.steps[-1] * 30 + 30 + r.choice([100, 20, -20])
        a, b = max(a, 0), min(b, 86399)
        n = max(2, int((b - a) / case["lidar_dt"]))
        lt = np.sort(r.uniform(a, b, n))
        keep = np.ones(n, bool)
        if case["lidar_gap"]:
            g0 = r.uniform(a, b)
            keep = (lt < g0) | (lt > g0 + r.choice([90, 240]))
            if keep.sum() < 2:
                keep[:] = True
        lt = lt[keep]
        lt = lt[np.concatenate([[True], np.diff(lt) > 0.01])]
        self.lt = lt / 3600
        hmax = self.agl[-1] * case["lidar_top"] + 30
        lr = np.arange(r.choice([5.0, 25.0, 160.0]), max(hmax, 400.0), case["lidar_dz"])
        self.lh = (lr + self.alt).astype("f4")
        step = self.nearest_step(self.lt)
        gate = np.array([np.argmin(np.abs(self.h - x)) for x in self.lh.astype(float)])
        x = self.beta[step][:, gate] * r.uniform(0.97, 1.03, (len(self.lt), len(gate)))
        x = ma.array(np.where(np.isnan(x), 0, x).astype("f4"), mask=np.isnan(x) | (r.random(x.shape) < r.choice([0, 0, 0.05])))
        if case["lidar_mask"] > 1:
            x[int(case["lidar_mask"]) - 2:] = ma.masked
        elif case["lidar_mask"]:
            x[r.random(len(self.lt)) < case["lidar_mask"]] = ma.masked
        if ma.getmaskarray(x).all() and case["lidar_mask"] <= 1:
            x[0, 0] = np.float32(3e-7)
            x[-1, 0] = np.float32(3e-7)
        self.bs = x

    def _mwr(self):
        r, case = self.r, self.case
        a, b = max(0, self.steps[0] * 30 - 60), min(86399, self.steps[-1] * 30 + 90)
        n = max(3, int((b - a) / r.choice([10, 40])))
        self.wt = np.sort(r.uniform(a, b, n)) / 3600
        wet = r.random(n) < 0.8
        lwp = np.where(wet, 10 ** r.uniform(-2.5, -0.5, n), r.normal(0, 0.002, n))
        mask = np.zeros(n, bool)
        k = case["mwr"]
        if k == "neg":
            lwp -= 0.05
        if k == "gaps":
            g0 = r.uniform(a, b) / 3600
            mask |= (self.wt > g0) & (self.wt < g0 + r.choice([200, 500]) / 3600)
        if k == "masked":
            mask[:] = True
        self.lwp_s = ma.array(lwp.astype("f4"), mask=mask)
        self.flag = (r.random(n) < 0.3).astype("i4") * r.integers(1, 3, n) if k == "flags" else None

    def _dis(self):
        r, case = self.r, self.case
        a, b = max(0, self.steps[0] * 30 - 60), min(86399, self.steps[-1] * 30 + 90)
        n = max(3, int((b - a) / r.choice([20, 60])))
        self.dt = np.sort(r.uniform(a, b, n)) / 3600
        step = self.nearest_step(self.dt)
        wet = self.raining[step] if r.random() < 0.7 else r.random(n) < 0.5
        if case["dis"] == "dry":
            wet = np.zeros(n, bool)
        rate = np.where(wet, 10 ** r.uniform(-1, 1.3, n), 0)
        num = np.where(wet, r.integers(5, 400, n), r.integers(0, 10, n))
        mask = np.zeros(n, bool)
        if case["dis"] == "gaps":
            g0 = r.uniform(a, b) / 3600
            gone = (self.dt > g0) & (self.dt < g0 + r.choice([120, 300]) / 3600)
            if r.random() < 0.5 and (~gone).sum() >= 3:
                self.dt, rate, num, mask = self.dt[~gone], rate[~gone], num[~gone], mask[~gone]
            else:
                mask |= gone
        n = len(self.dt)
        self.rate_s = ma.array((rate / 3.6e6).astype("f4"), mask=mask)
        self.num_s = ma.array(num.astype("i4"), mask=mask)
        k = case["wawa"]
        w = {"rain": [61, 62, 58, 57, 68], "snow": [71, 85, 0], "mixed": [61, 71, 0, 67, 69, 56], "none": [0]}[k]
        self.wawa_s = ma.array(r.choice(w, n).astype("i4"), mask=mask if r.random() < 0.5 else False)

    # -- files -----------------------------------------------------------
    def write(self, folder):
        case, n, m = self.case, len(self.rt), self.case["m"]
        files = {}

        def new(name, dims, source, kind):
            path = os.path.join(folder, name)
            files[kind] = path
            nc = netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC")
            for k, s in dims.items():
                nc.createDimension(k, s)
            nc.setncatts({"year": DATE[:4], "month": DATE[5:7], "day": DATE[8:], "location": "Test", "source": source, "cloudnet_file_type": kind, "file_uuid": f"{kind}-uuid", "history": f"2023-05-18 00:00:00 +00:00 - {kind} file created", "Conventions": "CF-1.8"})
            return nc

        def put(nc, name, data, dims=(), dtype="f4", **a):
            v = nc.createVariable(name, dtype, dims, fill_value=netCDF4.default_fillvals[dtype])
            for k, x in a.items():
                v.setncattr(k, x)
            v[...] = data

        def base(nc, t, loc=True):
            put(nc, "time", t, ("time",), "f8", units=f"hours since {DATE} 00:00:00 +00:00")
            if loc:
                put(nc, "altitude", self.alt, units="m")
                put(nc, "latitude", 60.0, units="degree_north")
                put(nc, "longitude", 24.0, units="degree_east")

        th = ("time", "range")
        with new("radar.nc", {"time": n, "range": m, "chirp_sequence": 3}, case["radar"], "radar") as nc:
            base(nc, self.rt, loc=case["loc"] == "scalar")
            if case["loc"] == "time":
                put(nc, "altitude", np.full(n, self.alt), ("time",), units="m")
                put(nc, "latitude", self.lat, ("time",), units="degree_north")
                put(nc, "longitude", self.lon, ("time",), units="degree_east")
            put(nc, "range", self.range, ("range",), units="m")
            put(nc, "height", self.height, ("range",), units="m")
            put(nc, "radar_frequency", case["freq"], units="GHz")
            put(nc, "Zh", self.Zs, th, units="dBZ")
            put(nc, "v", self.vs, th, units="m s-1")
            if case["ldr"] != "none":
                put(nc, case["ldr"], self.ldrs, th, units="dB")
            if case["width"]:
                put(nc, "width", self.widths, th, units="m s-1")
            f = self.nyq_file
            if case["nyq"] == "prf":
                put(nc, "prf", np.array([4 * case["vn"] * case["freq"] * 1e9 / 299792458.0]), ("one",) if "one" in nc.dimensions else (nc.createDimension("one", 1) and "one",), "f8", units="Hz")
            else:
                dims = {0: (), 1: ("chirp_sequence",), 2: ("time", "chirp_sequence")}[f.ndim] if case["nyq"] != "full" else th
                put(nc, "nyquist_velocity", f, dims, units="m s-1")
            if self.chirps is not None:
                put(nc, "chirp_start_indices", self.chirps, ("chirp_sequence",), "i4")
            if case["dealias"]:
                put(nc, "correction_bits", np.ones((n, m)), th, "i4")
            if case["rr"]:
                put(nc, "rainfall_rate", self.rr, ("time",), units="m s-1")
        with new("lidar.nc", {"time": len(self.lt), "height": len(self.lh)}, "Lufft CHM 15k", "lidar") as nc:
            base(nc, self.lt)
            put(nc, "height", self.lh, ("height",), units="m")
            put(nc, "beta", self.bs, ("time", "height"), units="sr-1 m-1")
            put(nc, "wavelength", 1064.0, units="nm")
        nt = len(self.mt)
        with new(f"20230517_site_{case['model']}.nc", {"time": nt, "level": len(self.mlev)}, case["model"], "model") as nc:
            put(nc, "time", self.mt, ("time",), "f8", units=f"hours since {DATE} 00:00:00 +00:00")
            tl = ("time", "level")
            put(nc, "height", np.repeat(self.mlev[None, :], nt, 0), tl, units="m")
            for k, x, u in (("temperature", self.T, "K"), ("pressure", self.P, "Pa"), ("q", self.q, "1"), ("rh", self.rhm, "1"), ("uwind", self.u, "m s-1"), ("vwind", -self.u, "m s-1")):
                put(nc, k, ma.array(x, mask=np.repeat(self.mgap[:, None], x.shape[1], 1)), tl, units=u)
            if case["sfc"] == "height":
                put(nc, "sfc_height", np.full(nt, self.sfc), ("time",), units="m")
            if case["sfc"] == "geopotential":
                put(nc, "sfc_geopotential", np.full(nt, self.sfc * G), ("time",), units="m2 s-2")
        if case["mwr"] != "none":
            with new("mwr.nc", {"time": len(self.wt)}, "RPG-Radiometer Physics HATPRO", "mwr") as nc:
                base(nc, self.wt)
                put(nc, "lwp", self.lwp_s, ("time",), units="kg m-2")
                if self.flag is not None:
                    put(nc, "lwp_quality_flag", self.flag, ("time",), "i4")
        if case["dis"] != "none":
            with new("dis.nc", {"time": len(self.dt)}, "OTT HydroMet Parsivel2", "disdrometer") as nc:
                base(nc, self.dt)
                put(nc, "rainfall_rate", self.rate_s, ("time",), units="m s-1")
                put(nc, "n_particles", self.num_s, ("time",), "i4", units="1")
                if case["wawa"] != "none":
                    put(nc, "synop_WaWa", self.wawa_s, ("time",), "i4", units="1")
        return files

    def options(self):
        return None if self.case["offset"] is None else {"temperature_offset": self.case["offset"]}

    @staticmethod
    def destripe(f, key):
        """Profiles or gates with far more pixels than the ten around them lose the pixels that have no neighbour in the closest normal profile or gate."""
        there = ~ma.getmaskarray(f[key])
        if there.any(axis=1).sum() < 300:
            return
        counts = there.sum(axis=1), there.sum(axis=0)
        for axis in (0, 1):
            n = counts[axis]
            spikes = set()
            for i in range(5, len(n) - 5):
                q1, q3 = np.percentile(np.r_[n[i - 5:i], n[i + 1:i + 6]], [25, 75])
                if q1 == q3 and q3 > 0:
                    continue
                if n[i] > max(q3 + 3 * max(q3 - q1, 1), 20):
                    spikes.add(i)
            for name, source in {("v", "Z"), (key if key != "v" else "v", key if key != "v" else "Z")}:
                src = ~ma.getmaskarray(f[source])
                src = src if axis == 0 else src.T
                tgt = ma.getmaskarray(f[name]).copy()
                for i in spikes:
                    lo, hi = i - 1, i + 1
                    while lo in spikes:
                        lo -= 1
                    while hi in spikes:
                        hi += 1
                    alone = src[i].copy()
                    if lo >= 0:
                        alone &= ~src[lo]
                    if hi < len(n):
                        alone &= ~src[hi]
                    if axis == 0:
                        tgt[i, alone] = True
                    else:
                        tgt[alone, i] = True
                f[name] = ma.array(f[name].data, mask=tgt)

    # -- gridded reference -------------------------------------------------
    def series(self, t, y, gap, nearest=False):
        """Linear (or nearest) interpolation of a series to the steps; constant outside; masked farther than `gap` minutes from a sample."""
        ok = ~ma.getmaskarray(y)
        g = (self.steps + 0.5) / 120
        if not ok.any():
            return ma.masked_all(len(g))
        t, y = t[ok], y.data[ok].astype(float)
        if nearest:
            out = np.array([y[np.argmin(np.abs(t - x))] for x in g])
        else:
            out = np.interp(g, t, y)
        far = np.array([np.min(np.abs(t - x)) > gap / 60 for x in g])
        return ma.array(out, mask=far)

    def grid(self):
        """Every gridded field at every step of the scene, and the steps that are kept."""
        case, m, K = self.case, self.case["m"], self.case["K"]
        g = {}
        Z, ldr, width, v, vs, nyq = (ma.masked_all((K, m)) for _ in range(6))
        rr = ma.masked_all(K)
        has = np.zeros(K, bool)
        self.ill = np.zeros((K, m), bool)
        for k in range(K):
            i = np.where(self.rk == k)[0]
            if not len(i):
                continue
            has[k] = True
            rr[k] = self.rr[i].astype(float).mean()
            nyq[k] = self.nyq[i].max(axis=0)
            for j in range(m):
                z = self.Zs[i, j].compressed().astype(float)
                if len(z):
                    Z[k, j] = 10 * np.log10(np.mean(10 ** (z / 10)))
                z = self.ldrs[i, j].compressed().astype(float)
                if len(z):
                    ldr[k, j] = 10 * np.log10(np.mean(10 ** (z / 10)))
                z = self.widths[i, j].compressed().astype(float)
                if len(z):
                    width[k, j] = z.mean()
                z = self.vs[i, j].compressed().astype(float)
                if len(z):
                    s = z.std()
                    if len(z) > 1 and s > 0:
                        vs[k, j] = s
                    if case["dealias"]:
                        v[k, j] = z.mean()
                    else:
                        w = np.mean(np.exp(1j * np.pi * z / nyq[k, j]))
                        v[k, j] = np.angle(w) * nyq[k, j] / np.pi
                        self.ill[k, j] = abs(w) < 1e-2 or abs(abs(np.angle(w)) - np.pi) < 1e-4
        f = {"Z": Z, "v": v, "v_sigma": vs, "nyquist_velocity": nyq}
        if case["width"]:
            f["width"] = width
        if case["ldr"] != "none":
            f[case["ldr"]] = ldr
        # lidar
        full = ~ma.getmaskarray(self.bs).all(axis=1)
        lt, lb = self.lt[full], self.bs[full]
        t = (self.steps + 0.5) / 120
        lh = self.lh.astype(float)
        beta = ma.masked_all((K, m))
        lid = np.zeros(K, bool)
        for k in range(K if len(lt) > 1 else 0):
            i = np.argmin(np.abs(lt - t[k]))
            lid[k] = abs(lt[i] - t[k]) <= 1 / 60
            if not lid[k] or t[k] < lt[0] or t[k] > lt[-1]:
                continue
            for j in range(m):
                n = np.argmin(np.abs(lh - self.h[j]))
                if lh[0] <= self.h[j] <= lh[-1] and abs(lh[n] - self.h[j]) <= 100:
                    beta[k, j] = lb[i, n]
        # model
        Tm, Pm, qm = (self.model_at(x, self.h) for x in (self.T, self.P, self.q))
        ok = has & lid & ~ma.getmaskarray(Tm).all(axis=1)
        self.valid = np.where(ok)[0]
        w = self.valid
        f = {k: x[w] for k, x in f.items()}
        self.ill = self.ill[w]
        n = len(w)
        if any(x in case["radar"].lower() for x in ("rpg", "basta")):
            for k in ("Z", "v", "width", "ldr", "v_sigma"):
                if k in f:
                    there = ~ma.getmaskarray(f[k])
                    pad = np.pad(there, ((1, 1), (0, 0)))
                    f[k] = ma.array(f[k], mask=~(there & (pad[:-2] | pad[2:])))
            f["v"][f["v"].filled(0)[:, 0] > 4, 0] = ma.masked
        before = {k: x.copy() for k, x in f.items()}
        for k in ("v", "v_sigma", "ldr"):
            if k in f:
                self.destripe(f, k)
        self.n_stripe = int(sum((ma.getmaskarray(f[k]) != ma.getmaskarray(before[k])).sum() for k in ("v",)))
        good = ~ma.getmaskarray(f["Z"]) & ~ma.getmaskarray(f["v"])
        if case["width"]:
            good &= ~ma.getmaskarray(f["width"])
        f = {k: ma.array(x.data, mask=ma.getmaskarray(x) | ~good) for k, x in f.items()}
        f["beta"] = beta[w]
        f["T"], f["P"], f["q"] = Tm[w], Pm[w], qm[w]
        tw = atmoslib.wet_bulb_temperature(f["T"].data, f["P"].data, f["q"].data) if n else ma.masked_all((n, m))
        f["Tw"] = ma.array(tw + (case["offset"] or 0))
        f["rr_radar"] = rr[w]
        if case["mwr"] != "none":
            y = ma.array(self.lwp_s, copy=True)
            if self.flag is not None:
                y[self.flag != 0] = ma.masked
            f["lwp"] = self.series(self.wt, y, 2)[w]
            f["lwp_error"] = self.series(self.wt, ma.sqrt((0.25 * y.astype(float)) ** 2 + 0.02**2), 2)[w]
        if case["dis"] != "none":
            f["rate"] = self.series(self.dt, self.rate_s, 1)[w]
            f["num"] = self.series(self.dt, self.num_s, 1)[w]
            if case["wawa"] != "none":
                f["wawa"] = self.series(self.dt, self.wawa_s, 1, nearest=True)[w]
        f["time"] = t[w]
        return f


def fields_of(sc, g, nc):
    """Gridded fields for the reference classification: as written in the file, apart from those the file does not hold."""
    f = {k: g[k] for k in ("Z", "rate", "num", "wawa", "time") if k in g}
    for k in ("v", "v_sigma", "width", "ldr", "sldr", "beta", "lwp", "lwp_error"):
        if k in nc.variables:
            f[k] = ma.array(nc[k][:], dtype=float)
    f["Tw"] = np.asarray(nc["Tw"][:], float)
    site = {"height": sc.h, "altitude": sc.alt, "model": sc.case["model"], "radar": sc.case["radar"]}
    return f, site


def attenuation_fields(sc, g, f):
    """Adds what the reference attenuation needs (model fields at gates, specific attenuations at gate bottoms' midpoints)."""
    f = dict(f, T=np.asarray(g["T"]), P=np.asarray(g["P"]))
    half = sc.h - np.diff(sc.h, prepend=sc.alt) / 2
    freq = float(np.float32(sc.case["freq"]))
    e = atmoslib.vapor_pressure(sc.P, sc.q)
    es = atmoslib.saturation_vapor_pressure(sc.T, phase="mixed")
    w = sc.valid
    f["gas"] = np.asarray(sc.model_at(atmoslib.gas_specific_attenuation(sc.T, sc.P, e, freq), half)[w])
    f["gas_saturated"] = np.asarray(sc.model_at(atmoslib.gas_specific_attenuation(sc.T, sc.P, es, freq), half)[w])
    f["liquid_atten"] = np.asarray(sc.model_at(atmoslib.liquid_water_specific_attenuation(sc.T, freq), half)[w])
    return f, freq
