"""Synthetic categorize files for the product checks."""
import netCDF4
import numpy as np
from hypothesis import strategies as st
from numpy import ma

from vh import rng

BITS = ("droplet", "falling", "freezing", "melting", "aerosol", "insect")
QBITS = ("radar", "lidar", "clutter", "molecular", "attenuated_liquid", "corrected_liquid", "attenuated_rain", "corrected_rain", "attenuated_melting", "corrected_melting")


@st.composite
def cat_case(draw, sizes=((2, 3), (2, 5), (3, 12), (6, 40), (20, 30)), modes=("random", "blocks", "blocks", "columns"), freqs=(35.5, 94.0)):
    n, m = draw(st.sampled_from(sizes))
    return {
        "n": n, "m": m, "mode": draw(st.sampled_from(modes)), "qmode": draw(st.sampled_from(["random", "blocks", "follow", "follow"])),
        "p": draw(st.sampled_from([0.02, 0.1, 0.3, 0.6, 1.0])), "grid": draw(st.sampled_from(["uniform", "uniform", "chirp", "low"])), "alt": draw(st.sampled_from([0.0, 12.0, 350.5, -410.0])),
        "freq": draw(st.sampled_from(freqs)), "zmask": draw(st.sampled_from(["echo", "echo", "random", "none"])), "lwp": draw(st.sampled_from(["ok", "ok", "ok", "masked", "neg", "zero", "high", "big"])),
        "rain": draw(st.sampled_from(["rain_detected", "rain_detected", "rainfall_rate", "rain_rate", "both"])), "prain": draw(st.sampled_from([0.0, 0.0, 0.3, 1.0])), "rmask": draw(st.sampled_from([0.0, 0.0, 0.2])),
        "att": draw(st.sampled_from(["zero", "small", "mixed", "mixed", "none"])), "temp": draw(st.sampled_from(["cold", "warm", "mixed"])), "mt": draw(st.sampled_from([2, 3, 25])), "empty": draw(st.sampled_from([0, 0, 0, 1])),
        "seed": draw(st.integers(0, 2**31)),
    }


def blobs(r, n, m, k):
    x = np.zeros((n, m), bool)
    for _ in range(k):
        i, j = r.integers(0, n), r.integers(0, m)
        x[i:i + r.integers(1, max(2, n) + 1), j:j + r.integers(1, max(2, m // 3) + 1)] = True
    return x


def field(r, mode, n, m, p):
    if mode == "random":
        return r.random((n, m)) < p
    if mode == "blocks":
        return blobs(r, n, m, r.integers(0, 4))
    x = np.zeros((n, m), bool)  # independent layers per column
    for i in range(n):
        for _ in range(r.integers(0, 3)):
            j = r.integers(0, m)
            x[i, j:j + r.integers(1, 5)] = True
    return x


class Cat:
    """All contents of one synthetic categorize file."""

    def __init__(self, case):
        r = rng(case["seed"])
        n, m = case["n"], case["m"]
        self.case, self.n, self.m = case, n, m
        self.time = np.sort(r.choice(np.arange(1, 2880), n, replace=False)) * 30 / 3600
        if case["grid"] == "uniform":
            self.agl = (100 + 30.0 * np.arange(m)).astype("f4")
        elif case["grid"] == "low":
            self.agl = (10 + 10.0 * np.arange(m)).astype("f4")
        else:
            self.agl = (60 + np.cumsum(r.choice([12.0, 24.0, 45.0], m))).astype("f4")
        self.alt = case["alt"]
        self.height = (self.agl + self.alt).astype("f4")
        if np.any(self.height == 0):
            self.height = self.height + np.float32(1.5)
        self.agl = self.height - np.float32(self.alt)
        # model
        self.mtime = np.linspace(0, 24, case["mt"]).astype("f4")
        self.mheight = np.linspace(float(self.height[0]) - 5, float(self.height[-1]) + 50, 6).astype("f4")
        t0 = {"cold": 255, "warm": 290, "mixed": 275}[case["temp"]]
        self.T = (t0 - 0.0065 * (self.mheight - self.mheight[0])[None, :] + r.normal(0, 4, (case["mt"], 6))).astype("f4")
        self.P = (101325 * np.exp(-(self.mheight[None, :]) / 8000) * (1 + r.normal(0, 0.002, (case["mt"], 6)))).astype("f4")
        # bits
        p = case["p"]
        self.bits = {k: (np.zeros((n, m), bool) if case["empty"] and k in ("droplet", "falling") else field(r, case["mode"], n, m, p)) for k in BITS}
        if case["mode"] != "random":
            self.bits["freezing"] = np.arange(m)[None, :] >= r.integers(0, m + 1, (n, 1))
            if case["mode"] == "columns":
                self.bits["melting"] &= r.random((n, m)) < 0.3
        if case["qmode"] == "follow":
            echo = self.bits["falling"] | self.bits["insect"]
            q = {"radar": (echo & (r.random((n, 1)) < 0.9)) | (self.bits["droplet"] & (r.random((n, 1)) < 0.5)), "lidar": self.bits["droplet"] | self.bits["aerosol"]}
            for k in QBITS[2:]:
                q[k] = np.zeros((n, m), bool)
            for k in ("liquid", "rain", "melting"):
                start = r.integers(0, m + 1, (n, 1))
                q["attenuated_" + k] = (np.arange(m)[None, :] >= start) & (r.random((n, 1)) < 0.4)
                q["corrected_" + k] = q["attenuated_" + k] & (r.random((n, 1)) < 0.6)
            q["clutter"][:, :2] = r.random((n, 2)) < 0.2
            q["molecular"] = field(r, "random", n, m, 0.05)
        else:
            q = {k: field(r, case["qmode"], n, m, p) for k in QBITS}
        self.q = q
        # radar
        z = np.round(r.uniform(-55, 25, (n, m)), 3)
        zm = {"echo": ~q["radar"], "random": r.random((n, m)) < 0.3, "none": np.zeros((n, m), bool)}[case["zmask"]]
        self.Z = ma.array(z.astype("f4"), mask=zm)
        self.Zerr = ma.array(r.uniform(0.2, 3, (n, m)).astype("f4"), mask=zm)
        self.Zsens = (-60 + 20 * np.log10(self.agl / 100 + 1)).astype("f4")
        self.Zbias = np.float32(r.choice([1.0, 2.5]))
        self.v = ma.array(r.uniform(-8, 4, (n, m)).astype("f4"), mask=zm)
        self.width = ma.array(r.uniform(0.05, 1.5, (n, m)).astype("f4"), mask=zm)
        self.vsigma = ma.array(r.uniform(0.01, 1.0, (n, m)).astype("f4"), mask=zm)
        self.beta = ma.array((10 ** r.uniform(-8, -4, (n, m))).astype("f4"), mask=~q["lidar"])
        e = rng(case["seed"] + 1)
        self.u = e.uniform(-15, 15, (case["mt"], 6)).astype("f4")
        self.w = e.uniform(-15, 15, (case["mt"], 6)).astype("f4")
        # column
        lwp = 10 ** r.uniform(-3, -0.3, n)
        lm = np.zeros(n, bool)
        k = case["lwp"]
        if k == "high":
            lwp *= 5
        elif k == "big":
            lwp = r.choice([0.9, 1.0, 1.1, 3.0], n)
        elif k == "neg":
            lwp *= r.choice([-1, 1], n)
        elif k == "zero":
            lwp *= r.choice([0, 1], n)
        elif k == "masked":
            lm = r.random(n) < 0.5
        self.lwp = ma.array(lwp.astype("f4"), mask=lm)
        self.lwperr = ma.array(r.uniform(0.005, 0.1, n).astype("f4"), mask=lm)
        rain = r.random(n) < case["prain"]
        self.rate = ma.array(np.where(rain, r.choice([0.02, 0.1, 2.9, 3.1, 20.0], n) / 3.6e6, 0).astype("f4"), mask=r.random(n) < case["rmask"])
        self.raindet = ma.array((r.random(n) < case["prain"]).astype("i4"), mask=r.random(n) < case["rmask"])
        kind = case["rain"]
        src = self.raindet if kind in ("rain_detected", "both") else self.rate
        self.is_rain = ma.filled(src != 0, True).astype(bool) | ma.getmaskarray(src)
        # attenuation
        self.att = {}
        for k in ("liquid", "rain", "melting"):
            if case["att"] == "none" or (case["att"] == "mixed" and r.random() < 0.1):
                continue
            a = np.cumsum(np.abs(r.normal(0, {"zero": 0, "small": 0.05, "mixed": 40 / m}[case["att"]], (n, m))) * q["attenuated_" + k], axis=1)
            for lim in (10, 15):
                a[np.abs(a - lim) < 0.01] += 0.05
            self.att[k] = ma.array(a.astype("f4"), mask=q["attenuated_" + k] & ~q["corrected_" + k])

    def write(self, path, **att):
        case, n, m = self.case, self.n, self.m
        with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
            for k, s in (("time", n), ("height", m), ("model_time", case["mt"]), ("model_height", 6)):
                nc.createDimension(k, s)

            def put(name, data, dims=(), dtype="f4", **a):
                v = nc.createVariable(name, dtype, dims, fill_value=netCDF4.default_fillvals[dtype])
                for k, x in a.items():
                    v.setncattr(k, x)
                v[...] = data

            th = ("time", "height")
            put("time", self.time, ("time",), "f8", units="hours since 2023-05-17 00:00:00 +00:00")
            put("height", self.height, ("height",), units="m")
            put("model_time", self.mtime, ("model_time",))
            put("model_height", self.mheight, ("model_height",), units="m")
            put("altitude", self.alt, units="m")
            put("latitude", 60.5, units="degree_north")
            put("longitude", 24.5, units="degree_east")
            put("temperature", self.T, ("model_time", "model_height"), units="K")
            put("pressure", self.P, ("model_time", "model_height"), units="Pa")
            put("category_bits", sum(self.bits[k].astype("i4") << i for i, k in enumerate(BITS)), th, "i4")
            put("quality_bits", sum(self.q[k].astype("i4") << i for i, k in enumerate(QBITS)), th, "i4")
            put("radar_frequency", case["freq"], units="GHz")
            for k, x in (("Z", self.Z), ("Z_error", self.Zerr), ("v", self.v), ("width", self.width), ("v_sigma", self.vsigma), ("beta", self.beta)):
                if x is not None:
                    put(k, x, th)
            put("Z_sensitivity", self.Zsens, ("height",))
            put("Z_bias", self.Zbias)
            put("beta_bias", np.float32(0.5))
            put("beta_error", np.float32(case.get("beta_error", 0.5)))
            put("uwind", self.u, ("model_time", "model_height"), units="m s-1")
            put("vwind", self.w, ("model_time", "model_height"), units="m s-1")
            put("lidar_wavelength", 1064.0)
            if case.get("has_lwp", True):
                put("lwp", self.lwp, ("time",), units="kg m-2")
                put("lwp_error", self.lwperr, ("time",), units="kg m-2")
            if case["rain"] in ("rain_detected", "both"):
                put("rain_detected", self.raindet, ("time",), "i4")
            if case["rain"] in ("rainfall_rate", "both"):
                put("rainfall_rate", self.rate, ("time",), units="m s-1")
            if case["rain"] == "rain_rate":
                put("rain_rate", self.rate, ("time",))
            for k, x in self.att.items():
                put(f"radar_{k}_atten", x, th)
            put("radar_gas_atten", np.full((n, m), 0.1), th)
            nc.setncatts({"year": "2023", "month": "05", "day": "17", "location": "Test", "file_uuid": "abc", "cloudnet_file_type": "categorize", "source": "Foo\nBar",
                          "history": "2023-05-18 00:00:00 +00:00 - categorize file created", **att})
        return path

    def model(self, field):
        """Model field interpolated bilinearly to the grid, constant outside."""
        f = {"T": self.T, "P": self.P, "u": self.u, "w": self.w}[field]
        f = f.astype(float)
        x = np.clip(self.time, self.mtime[0], self.mtime[-1])
        a = np.array([np.interp(x, self.mtime, f[:, j]) for j in range(f.shape[1])]).T
        y = np.clip(self.height.astype(float), self.mheight[0], self.mheight[-1])
        return np.array([np.interp(y, self.mheight.astype(float), a[i]) for i in range(self.n)])


def common(t, nc, cat, kind):
    """Coordinates and global attributes every product copies from the categorize file."""
    t.eq((nc.year, nc.month, nc.day, nc.location, nc.cloudnet_file_type), ("2023", "05", "17", "Test", kind), "global attributes")
    t.same(t.var(nc, "time")[:], cat.time, "time", rtol=1e-9)
    t.same(t.var(nc, "height")[:], cat.height, "height", rtol=1e-7)
    t.same(t.var(nc, "altitude")[:], cat.alt, "altitude")
    t.ok("abc" in nc.source_file_uuids, "source_file_uuids")
