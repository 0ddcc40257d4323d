import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
import scipy.stats
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy.exceptions import ModelDataError
from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product

c = Check(
    "P24",
    "Model files (grids, winds, resolutions, masks, optional fields) and observation files (categorize or retrieved products with gaps, on their own grids) are turned into level-3 files; every box is recomputed from the pixels whose centre lies inside.  "
    "Non-trivial: at least one box with and one without observations, and at least two different values.",
    ["model times are evenly spaced", "model wind is never exactly calm"],
)
RS = 287.058
UID = "12345678-1234-5678-1234-567812345678"
DATE = ("2023", "05", "17")
COEFFS = {35.5: (0.000242, -0.0186, 0.0699, -1.63), 94.0: (0.000580, -0.00706, 0.0923, -0.992)}


def put(nc, name, data, dims=(), dtype="f4", **att):
    v = nc.createVariable(name, dtype, dims, fill_value=netCDF4.default_fillvals[dtype])
    v.setncatts(att)
    v[...] = data


@st.composite
def l3_case(draw, products):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    return {
        "product": S(*products), "steps": S(3, 9, 25), "span": S(24.0, 6.0, 1.0), "t0": S(0.0, 3.0, -1.0, 0.37), "nl": S(5, 3, 12), "grid": S("even", "stretched", "top"), "moving": S(False, True),
        "n": S(200, 40, 3, 1), "m": S(30, 2, 12), "otimes": S("regular", "exact", "random", "gap"), "oheights": S("exact", "odd", "low"), "p": S(0.3, 0.05, 0.9, 0.0), "mask": S(0.0, 0.2, 0.7), "nan": S(False, False, True),
        "res": S(9.0, 2.5, 60.0), "resdim": S("scalar", "time"), "wind": S(10.0, 2.0, 40.0), "wmask": S(False, False, True), "mmask": S(False, True), "level": S(True, True, False), "qs": S("none", "qs", "both"), "freq": S(35.5, 94.0, None),
        "zsens": S("yes", "yes", "no"), "alt": S(0.0, 0.0, 0.0, 300.0), "name": S(None, "European model"), "site": S(None, "Some site"), "exists": S("no", "no", "no", "keep", "overwrite"), "pids": S(True, False), "qi": S("real", "real", "none", "thin"), "seed": draw(st.integers(0, 2**31)),
    }


class World:
    def __init__(self, case):
        r = rng(case["seed"])
        self.case = case
        k, nl = case["steps"], case["nl"]
        self.mt = (case["t0"] if case["span"] < 24 else 0) + np.linspace(0, case["span"], k)
        if case["grid"] == "even":
            base = 500.0 + 1000.0 * np.arange(nl) * (1 if nl < 12 else 0.8)
        elif case["grid"] == "stretched":
            base = 20.0 * 1.0 * (np.arange(nl) + 1) ** 2 * (144 / (nl * nl)) + 2
        else:
            base = np.linspace(100.0, 30000.0, nl)
        h = np.broadcast_to(base, (k, nl)).astype("f8")
        if case["moving"]:
            h = h + (r.uniform(-4, 4, (k, 1)) if case["grid"] == "even" else r.uniform(-4, 4, (k, nl)))
        self.mh = h.astype("f4")
        self.res = np.float32(case["res"])

        def gaps(x, p=0.15):
            return ma.array(x, mask=r.random(x.shape) < p) if case["mmask"] else ma.array(x)

        self.cf = gaps(np.float32(np.clip(r.uniform(-0.3, 1.2, (k, nl)), 0, 1)))
        q = np.float32(10 ** r.uniform(-8, -3.5, (k, nl)))
        q[r.random((k, nl)) < 0.2] = 0
        q[r.random((k, nl)) < 0.05] = -1e-6
        if case["qi"] == "none":
            q[:] = 0
        elif case["qi"] == "thin":
            q = np.abs(q) / 50
        self.qi = gaps(q)
        q = np.float32(10 ** r.uniform(-9, -3.5, (k, nl)))
        q[r.random((k, nl)) < 0.5] = 0
        self.ql = gaps(q)
        self.qs, self.qg = (gaps(np.float32(10 ** r.uniform(-8, -4, (k, nl)))) for _ in range(2))
        self.T = gaps(np.float32(285 - 6e-3 * np.minimum(self.mh, 11000) + r.normal(0, 3, (k, nl))))
        self.P = gaps(np.float32(101325 * np.exp(-self.mh / 8000)))
        self.u, self.v = (np.float32(r.choice([-1, 1], (k, nl)) * r.uniform(0.1, 1, (k, nl)) * case["wind"]) for _ in range(2))
        self.wmask = r.random((k, nl)) < (0.15 if case["wmask"] else 0)
        # observations
        n, m = case["n"], case["m"]
        if case["otimes"] == "exact":  # centres hit the edges of boxes
            self.t = np.sort(r.choice(np.arange(1, 96), min(n, 90), replace=False)) * 0.25
        else:
            self.t = (np.arange(n) + 0.5) * 24 / n if case["otimes"] == "regular" else np.sort(r.uniform(0, 24, n))
            if case["otimes"] == "gap" and n > 3:
                self.t = np.delete(self.t, np.arange(n // 4, 3 * n // 4))
        n = len(self.t)
        self.h = {"exact": 250.0 * (np.arange(m) + 1), "odd": 131.7 + 97.3 * np.arange(m), "low": 30.5 + 12.5 * np.arange(m)}[case["oheights"]].astype("f4") + np.float32(case["alt"])
        p = case["p"]
        self.bits = {b: r.random((n, m)) < p for b in ("droplet", "falling", "freezing", "melting", "aerosol", "insect")}
        if r.random() < 0.5:  # cells of the box are cloudy together
            self.bits["droplet"] &= (np.arange(n)[:, None] // 7) % 2 == 0
            self.bits["falling"] &= (np.arange(m)[None, :] // 4) % 2 == 1
        value = np.float32(10 ** r.uniform(-7, -3, (n, m)))
        if case["nan"]:
            value[r.random((n, m)) < 0.05] = np.nan
        self.value = ma.array(value, mask=r.random((n, m)) < case["mask"])
        self.status = r.integers(0, 8, (n, m))
        self.zsens = np.float32(-55 + 20 * np.log10(self.h / 500 + 0.3))

    def write(self, t):
        case = self.case
        k, nl = self.mh.shape
        model, obs = t.path("model.nc"), t.path("obs.nc")
        with netCDF4.Dataset(model, "w", format="NETCDF4_CLASSIC") as nc:
            nc.createDimension("time", k)
            nc.createDimension("level", nl)
            d = ("time", "level")
            put(nc, "time", self.mt, ("time",), "f8", units="hours since 2023-05-17 00:00:00 +00:00")
            put(nc, "height", self.mh, d, units="m")
            if case["level"]:
                put(nc, "level", np.arange(nl) + 1, ("level",), "i4")
            put(nc, "latitude", 60.25)
            put(nc, "longitude", 24.5)
            if case["resdim"] == "scalar":
                put(nc, "horizontal_resolution", self.res, units="km")
            else:
                put(nc, "horizontal_resolution", np.full(k, self.res), ("time",), units="km")
            put(nc, "forecast_time", np.arange(k) * 1.5, ("time",), units="hours")
            for name, x in (("cloud_fraction", self.cf), ("qi", self.qi), ("ql", self.ql), ("temperature", self.T), ("pressure", self.P)):
                put(nc, name, x, d)
            put(nc, "uwind", ma.array(self.u, mask=self.wmask), d)
            put(nc, "vwind", ma.array(self.v, mask=self.wmask), d)
            if case["qs"] != "none":
                put(nc, "qs", self.qs, d)
            if case["qs"] == "both":
                put(nc, "qg", self.qg, d)
            nc.setncatts({"year": "2023", "month": "05", "day": "17", "location": "Test", "file_uuid": "model-uuid", "cloudnet_file_type": "model", "source": "x", "history": "2023-05-18 00:00:00 +00:00 - model file created"})
        n, m = len(self.t), len(self.h)
        with netCDF4.Dataset(obs, "w", format="NETCDF4_CLASSIC") as nc:
            nc.createDimension("time", n)
            nc.createDimension("height", m)
            d = ("time", "height")
            put(nc, "time", self.t, ("time",), "f8", units="hours since 2023-05-17 00:00:00 +00:00")
            put(nc, "height", self.h, ("height",), units="m")
            put(nc, "altitude", case["alt"], units="m")
            put(nc, "latitude", 60.25)
            put(nc, "longitude", 24.5)
            if case["product"] == "cf":
                bits = sum(self.bits[b].astype(int) << i for i, b in enumerate(("droplet", "falling", "freezing", "melting", "aerosol", "insect")))
                put(nc, "category_bits", bits, d, "i4")
                put(nc, "quality_bits", np.zeros((n, m)), d, "i4")
                if case["freq"] is not None:
                    put(nc, "radar_frequency", case["freq"], units="GHz")
                if case["zsens"] == "yes":
                    put(nc, "Z_sensitivity", self.zsens, ("height",), units="dBZ")
            else:
                put(nc, case["product"], self.value, d, units="kg m-3")
                if case["product"] == "iwc":
                    put(nc, "iwc_retrieval_status", self.status, d, "i4")
            nc.setncatts({"year": "2023", "month": "05", "day": "17", "location": "Test", "file_uuid": "obs-uuid", "cloudnet_file_type": "x", "source": "x", "history": "2023-05-18 00:00:00 +00:00 - product file created"})
            if case["pids"]:
                nc.source_instrument_pids = "https://hdl.handle.net/1"
        return model, obs

    # -- expectations
    def levels(self):
        return int(np.sum(np.any(self.mh < 22000, axis=0)))

    def cloudy(self):
        b = self.bits
        bug = b["aerosol"] | b["insect"]
        return np.where(bug, 0, b["droplet"] | (b["falling"] & b["freezing"])).astype(float)

    def boxes(self, heights):
        """For each model box: time windows of both kinds and height window."""
        k, nl = self.mh.shape[0], self.levels()
        step = (self.mt[-1] - self.mt[0]) / (k - 1)
        us = lambda x: np.round(np.asarray(x) * 3600e6)  # noqa  (times are kept as microseconds)
        ot = us(self.t)
        h = self.mh[:, :nl]
        speed = np.hypot(self.u.astype(float), self.v.astype(float))
        for i in range(k):
            lo, hi = us(self.mt[0] + (i - 0.5) * step), us(self.mt[0] + (i + 0.5) * step)
            inside = (lo <= ot) & (ot < hi)
            fuzzy = np.any((np.abs(ot - lo) == 1) | (np.abs(ot - hi) == 1))
            row = h[i]
            edge = np.concatenate([[row[0] - (row[1] - row[0])], (row[:-1] + row[1:]) / np.float32(2), [row[-1] + (row[-1] - row[-2])]])
            for j in range(nl):
                width = 0.0 if self.wmask[i, j] else min(1.0, float(self.res) * 1000 / speed[i, j] / 3600)
                a, b = us(self.mt[i]) - width * 1800e6, us(self.mt[i]) + width * 1800e6
                adv = (a <= ot) & (ot < b)
                blur = fuzzy or np.any((np.abs(ot - a) < 2000) & (width < 1)) or np.any((np.abs(ot - b) < 2000) & (width < 1))
                inh = (edge[j] <= heights) & (heights < edge[j + 1])
                yield i, j, inside, adv, inh, blur


def expected(w, heights):
    """Level-3 fields on the model grid; second: boxes whose edge is too close to a pixel."""
    k, nl = w.mh.shape[0], w.levels()
    product = w.case["product"]
    names = ("cf_V", "cf_A", "cf_V_adv", "cf_A_adv") if product == "cf" else (product, product + "_adv")
    out = {name: ma.masked_all((k, nl)) for name in names}
    blurred = np.zeros((k, nl), bool)
    cloudy = w.cloudy()
    value = ma.array(w.value.astype(float), mask=ma.getmaskarray(w.value) | ~np.isfinite(w.value.data))
    if product == "iwc":
        value[(w.status != 1) & (w.status != 3)] = ma.masked
    for i, j, inside, adv, inh, blur in w.boxes(heights):
        blurred[i, j] = blur
        for times, tail in ((inside, ""), (adv, "_adv")):
            if not times.any() or not inh.any():
                continue
            if product == "cf":
                x = cloudy[times][:, inh]
                out["cf_V" + tail][i, j] = x.mean()
                out["cf_A" + tail][i, j] = (x.max(axis=1) > 0).mean()
            else:
                x = value[times][:, inh]
                if x.count():
                    out[product + tail][i, j] = x.compressed().mean()
    return out, blurred


def hide(x, where):
    return ma.array(x, mask=ma.getmaskarray(x) | where)


def cirrus(w):
    """(filtered cloud fraction, cells not judged) or None if there is nothing to filter."""
    nl = w.levels()
    cf, T = ma.array(w.cf[:, :nl].astype(float)), w.T[:, :nl].astype(float) - 273.15
    wc = []
    for name, x in (("i", w.qi), ("l", w.ql)):
        q = x[:, :nl].astype(float)
        if name == "i":
            for kind, extra in (("qs", w.qs), ("qg", w.qg)):
                if w.case["qs"] == kind or w.case["qs"] == "both":
                    q = q + extra[:, :nl].astype(float)
        y = q * w.P[:, :nl].astype(float) / (RS * w.T[:, :nl].astype(float))
        wc.append(ma.masked_less(y, 0))
    iwc, lwc = wc
    cf = ma.masked_less(cf, np.float32(0.05))
    ice = ma.filled((cf > 0) & (iwc > 0) & (lwc < iwc / 10), False)
    if not ice.any() or w.case["freq"] is None or w.case["zsens"] == "no":
        return None
    out = cf.copy()
    free = np.zeros(out.shape, bool)
    ZT, cT, Z, c0 = COEFFS[w.case["freq"]]
    h = w.mh[:, :nl].astype(float)
    u, v = w.u[:, :nl].astype(float), w.v[:, :nl].astype(float)
    for i, j in np.argwhere(ice):
        a, b = max(j - 1, 0), min(j + 1, nl - 1)
        if w.wmask[i, a] or w.wmask[i, b]:
            continue
        du, dv, ds = ((x[i, b] - x[i, a]) / (h[i, b] - h[i, a]) for x in (u, v, np.hypot(u, v)))
        shear = np.hypot(du, dv) * (-1 if ds < 0 else 1)
        var = 10 ** (0.3 * np.log10(w.res) - 0.04 * shear - 1.03)
        x = iwc[i, j] / cf[i, j] * 1e3
        end = x * (1 + 5 * np.sqrt(var))
        dist = np.arange(0, end, end / 249)
        if x < dist[2]:
            end = 10 * x
            dist = np.arange(0, end, end / 249)
        pdf = scipy.stats.gamma.pdf(dist, a=1 / var, scale=x * var)
        if np.isinf(pdf).any() or pdf.sum() == 0 or pdf[-1] > 0.01 * pdf.sum():
            out[i, j] = ma.masked
            free[i, j] = abs(pdf[-1] / pdf.sum() - 0.01) < 1e-3 or abs(var - 1) < 1e-3
            continue
        edges = np.concatenate([[h[i, 0] - (h[i, 1] - h[i, 0]) / 2], (h[i, 1:] + h[i, :-1]) / 2, [h[i, -1] + (h[i, -1] - h[i, -2]) / 2]])
        free[i, j] = np.any(np.minimum(abs(w.h - edges[j]), abs(w.h - edges[j + 1])) < 0.01)
        inh = (edges[j] <= w.h) & (w.h < edges[j + 1])
        if not inh.any():
            out[i, j] = ma.masked
            continue
        z = w.zsens[inh].astype(float).mean()
        limit = 10 ** (ZT * z * T[i, j] + cT * T[i, j] + Z * z + c0)
        out[i, j] *= pdf[dist > limit].sum() / pdf.sum()
        free[i, j] |= np.min(np.abs(dist - limit)) < 1e-3 * dist[1] or abs(pdf[-1] / pdf.sum() - 0.01) < 1e-3
    free |= ma.filled(abs(out - 0.05) < 1e-4, False)
    return ma.masked_less(out, 0.05), free


def driver(t, w, **kw):
    model, obs = w.write(t)
    out = t.path("l3.nc")
    case = w.case
    uid = process_L3_day_product("somemodel", case["product"], model, obs, out, uuid=UID, model_name=case["name"], site_name=case["site"], **kw)
    t.eq(str(uid), UID, "returned uuid")
    return out


def body(case, t):
    w = World(case)
    product = case["product"]
    if case["exists"] != "no":
        with open(t.path("l3.nc"), "w") as f:
            f.write("precious")
    if case["exists"] == "keep":
        try:
            driver(t, w)
        except FileExistsError:
            t.eq(open(t.path("l3.nc")).read(), "precious", "existing file")
            t.label("existing file kept")
            return
        t.fail("existing file was overwritten")
    out = driver(t, w, **({"overwrite": True} if case["exists"] == "overwrite" else {}))
    nl = w.levels()
    exp, blurred = expected(w, w.h.astype(float) - case["alt"])
    with netCDF4.Dataset(out) as nc:
        t.eq(tuple(nc.dimensions[x].size for x in ("time", "level")), (case["steps"], nl), "dimensions")
        t.eq((nc.year, nc.month, nc.day), DATE, "date")
        t.eq((nc.location, nc.cloudnet_file_type, nc.file_uuid, nc.model_id, nc.model_name), (case["site"] or "Test", "l3-" + product, UID, "somemodel", case["name"] or "somemodel"), "global attributes")
        t.eq(sorted(x.strip() for x in nc.source_file_uuids.split(",")), ["model-uuid", "obs-uuid"], "source_file_uuids")
        t.eq(nc.source, "obs.nc\nmodel.nc", "source")
        t.eq(getattr(nc, "source_instrument_pids", None), "https://hdl.handle.net/1" if case["pids"] else None, "source_instrument_pids")
        t.same(t.var(nc, "time")[:], w.mt, "time", rtol=1e-7, atol=1e-6)
        t.eq(nc["time"].units, "hours since 2023-05-17 00:00:00 +00:00", "units of time")
        t.same(t.var(nc, "model_height")[:], w.mh[:, :nl], "model_height")
        t.same(t.var(nc, "model_forecast_time")[:], np.arange(case["steps"]) * 1.5, "model_forecast_time")
        t.same(np.unique(t.var(nc, "horizontal_resolution")[:]), [w.res], "horizontal_resolution")
        t.same(t.var(nc, "latitude")[:], 60.25, "latitude")
        t.same(t.var(nc, "longitude")[:], 24.5, "longitude")
        if case["level"]:
            t.same(t.var(nc, "level")[:], np.arange(nl) + 1, "level")
        # model fields
        if product == "cf":
            field, limit = w.cf[:, :nl].astype(float), np.float32(0.05)
        else:
            q = w.ql[:, :nl].astype(float) if product == "lwc" else w.qi[:, :nl].astype(float)
            if product == "iwc":
                for kind, extra in (("qs", w.qs), ("qg", w.qg)):
                    if case["qs"] in (kind, "both"):
                        q = q + extra[:, :nl].astype(float)
            field, limit = q * w.P[:, :nl].astype(float) / (RS * w.T[:, :nl].astype(float)), 1e-7 if product == "iwc" else 1e-5
        near = ma.filled(abs(field / limit - 1) < 1e-5, False)
        t.same(hide(t.var(nc, "model_" + product)[:], near), hide(ma.masked_less(field, limit), near), "model_" + product)
        # cirrus filter
        if product == "cf":
            ref = cirrus(w)
            if ref is None and case["freq"] is not None and case["zsens"] == "yes":  # no ice clouds
                if "model_cf_cirrus" in nc.variables:
                    t.same(nc["model_cf_cirrus"][:], nc["model_cf"][:], "model_cf_cirrus without ice clouds")
            else:
                t.eq("model_cf_cirrus" in nc.variables, ref is not None, "presence of model_cf_cirrus")
            if ref is not None:
                got = nc["model_cf_cirrus"][:]
                t.label("cirrus filter")
                t.ok(not np.any(~ma.getmaskarray(got) & ma.getmaskarray(nc["model_cf"][:])), "cirrus filter added clouds")
                t.ok(np.all((got <= nc["model_cf"][:] + 1e-6).compressed()) and np.all(np.isfinite(got.compressed())), "cirrus filter increased the cloud fraction")
                if case["grid"] == "stretched" or case["alt"]:
                    # known finding: sensitivity is taken from evenly spaced bins and from heights above sea level
                    try:
                        t.same(hide(got, ref[1]), hide(ref[0], ref[1]), "model_cf_cirrus", rtol=2e-3)
                    except Violation:
                        t.label("known finding: sensitivity of wrong height")
                else:
                    t.same(hide(got, ref[1]), hide(ref[0], ref[1]), "model_cf_cirrus", rtol=2e-3)
                    t.label("cirrus reduced", bool(np.any(ma.getmaskarray(got) != ma.getmaskarray(nc["model_cf"][:]))))
        # observations
        got = {name: t.var(nc, name)[:] for name in exp}

        def compare(exp, blurred):
            for name in exp:
                t.same(hide(got[name], blurred), hide(exp[name], blurred), name, rtol=1e-4, atol=1e-12)

        try:
            compare(exp, blurred)
        except Violation:
            if not case["alt"]:
                raise
            # known finding: heights above sea level are compared with heights above ground
            compare(*expected(w, w.h.astype(float)))
            t.label("known finding: heights above sea level")
            return
    first = exp[next(iter(exp))]
    t.mark(first.count() and ma.getmaskarray(first).any() and len(np.unique(first.compressed())) > 1)
    adv = exp[next(k for k in exp if k.endswith("adv"))]
    t.label("advection differs", bool(np.any(ma.filled(first - adv, 0) != 0)))
    t.label("boxes without observations", bool(ma.getmaskarray(first).any()))
    t.label("levels cut", nl < case["nl"])
    t.label("pixels on edges", case["otimes"] == "exact" or case["oheights"] == "exact")
    t.label("product " + product)


@c.sub("cloud fraction", l3_case(["cf"]), quick=110, thorough=1500, shards=4)
def _(case, t):
    body(case, t)


@c.sub("water content", l3_case(["iwc", "lwc"]), quick=110, thorough=1500, shards=4)
def _(case, t):
    body(case, t)


@st.composite
def broken_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    base = draw(l3_case(["cf", "iwc", "lwc"]))
    return {**base, "exists": "no", "defect": S("height", "horizontal_resolution", "negative resolution", "cloud_fraction", "qi", "ql", "temperature", "pressure", "two resolutions")}


@c.sub("incomplete models", broken_case(), quick=40, thorough=400)
def _(case, t):
    w = World(case)
    model, obs = w.write(t)
    what = case["defect"]
    with netCDF4.Dataset(model, "a") as nc:
        if what in nc.variables:
            nc.renameVariable(what, "other")
        elif what == "negative resolution":
            nc["horizontal_resolution"][...] = -1
        elif case["resdim"] == "scalar":
            return
        else:
            nc["horizontal_resolution"][0] = 2 * w.res
    need = {"cf": ("cloud_fraction",), "iwc": ("qi", "temperature", "pressure"), "lwc": ("ql", "temperature", "pressure")}[case["product"]]
    if "resolution" not in what and what != "height" and what not in need:
        return
    out = t.path("l3.nc")
    t.mark()
    try:
        process_L3_day_product("somemodel", case["product"], model, obs, out)
    except ModelDataError as e:
        t.ok("somemodel" in str(e), "the message does not tell the model")
        t.ok(not os.path.exists(out), "a file was left behind")
        return
    t.fail(f"no exception for a model with broken {what}")


c.main()
