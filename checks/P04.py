import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy import utils
from cloudnetpy.cloudnetarray import CloudnetArray
from cloudnetpy.instruments import instruments
from cloudnetpy.instruments.cloudnet_instrument import CloudnetInstrument

c = Check(
    "P04",
    "Cases combine, per coordinate, a GPS track (absent, masked, zero, stationary, moving, with dropouts), user coordinates, raw-file "
    "variables and raw-file global attributes in several spellings; the oracle is the documented priority order evaluated independently.  "
    "Non-trivial: two or more competing sources exist for some coordinate.",
    ["raw-file coordinates and GPS share the time dimension", "tracks do not cross the antimeridian"],
)


@st.composite
def track(draw, base_lo, base_hi):
    kind = draw(st.sampled_from(["none", "none", "masked", "zero", "still", "still", "moving", "dropout"]))
    return {"kind": kind, "base": draw(st.integers(base_lo * 4, base_hi * 4)) / 4 + 0.125, "n": 0, "step": draw(st.sampled_from([0.0, 0.0005, 0.0005])),
            "drop": draw(st.sampled_from(["zero", "mask"]))}


ATTR = st.sampled_from(["none", "none", "plain", "unit", "hemi", "hemi_space", "unknown", "neg"])


@st.composite
def cases(draw):
    d = {"gps": draw(st.booleans()), "where": draw(st.sampled_from(["data", "dataset"])), "n": draw(st.integers(2, 6)), "has_ds": draw(st.booleans())}
    moving = draw(st.booleans())
    for key, lo, hi in (("latitude", -80, 80), ("longitude", -175, 355)):
        tr = draw(track(lo, hi))
        if tr["kind"] == "moving" and not moving:
            tr["kind"] = "still"
        d[key] = tr
    # a moving platform moves in both coordinates
    if "moving" in (d["latitude"]["kind"], d["longitude"]["kind"]):
        for k in ("latitude", "longitude"):
            d[k]["kind"] = "moving"
    d["altitude"] = {"kind": draw(st.sampled_from(["none", "still", "moving", "masked"])), "base": draw(st.integers(1, 3000)) / 1.0, "step": 0.5, "drop": "mask"}
    d["site"] = {k: draw(st.one_of(st.none(), st.integers(lo * 8, hi * 8).map(lambda i: i / 8))) for k, lo, hi in (("latitude", -80, 80), ("longitude", -170, 350), ("altitude", 0, 4000))}
    d["strsite"] = draw(st.booleans())
    d["attr"] = {k: [draw(ATTR), draw(st.integers(1, 800)) / 10, draw(st.booleans())] for k in ("latitude", "longitude", "altitude")}
    return d


def values(tr, n, key):
    kind = tr["kind"]
    base = tr["base"]
    i = np.arange(n)
    if kind == "masked":
        return ma.masked_all(n)
    if kind == "zero":
        return ma.array(np.zeros(n), mask=False)
    if kind == "moving":
        return ma.array(base + i * (200.0 if key == "altitude" else 0.5), mask=False)
    v = ma.array(base + i * tr["step"], mask=False)
    if kind == "dropout":
        if tr["drop"] == "zero":
            v[0] = 0.0
        else:
            v[0] = ma.masked
    return v


def attr_text(form, v, neg, key):
    hemi = {"latitude": "NS", "longitude": "EW", "altitude": "mm"}[key][1 if neg else 0]
    if form == "plain":
        return f"{v}", v
    if form == "unit":
        return (f"{v} m" if key == "altitude" else f"{v} {hemi}"), (v if key == "altitude" else (-v if neg else v))
    if form == "hemi":
        return (f"{v}m" if key == "altitude" else f"{v}{hemi}"), (v if key == "altitude" else (-v if neg else v))
    if form == "hemi_space":
        return (f"{v}  {hemi}"), (v if key == "altitude" else (-v if neg else v))
    if form == "neg":
        return f"-{v}", -v
    return "Unknown", None


def wrap(x):
    return ma.where(x > 180, x - 360, x)


@c.sub("priority", cases(), quick=1200, shards=3)
def _(case, t):
    n = case["n"]
    ds = None
    data = {}
    use_ds = case["has_ds"] or case["where"] == "dataset"
    if use_ds:
        ds = netCDF4.Dataset(t.path("x.nc"), "w", diskless=True, persist=False)
        ds.createDimension("time", n)
    try:
        tracks = {}
        for k in ("latitude", "longitude", "altitude"):
            v = None if case[k]["kind"] == "none" else values(case[k], n, k)
            tracks[k] = v
            if v is None:
                continue
            if case["where"] == "dataset":
                ds.createVariable(k, "f8", ("time",), fill_value=-999.0)[:] = v
            else:
                data[k] = CloudnetArray(v.copy(), k)
        attrs = {}
        if use_ds:
            for k, (form, v, neg) in case["attr"].items():
                if form != "none":
                    txt, val = attr_text(form, v, neg, k)
                    setattr(ds, k.capitalize(), txt)
                    attrs[k] = val
        site = {k: (str(v) if case["strsite"] else v) for k, v in case["site"].items() if v is not None}
        site["name"] = "X"
        site0 = dict(site)
        exp, src = {}, {}
        competing = 0
        for k in ("latitude", "longitude", "altitude"):
            v = tracks[k]
            gps_ok = case["gps"] and k != "altitude" and v is not None and not ma.getmaskarray(v).all() and bool((v.compressed() != 0).any())
            opts = []
            if gps_ok:
                opts.append((ma.masked_where(v == 0, v), "GPS"))
            if k in site:
                opts.append((ma.array([case["site"][k]]), "site coordinates"))
            if case["where"] == "dataset" and v is not None and not ma.getmaskarray(v).all():
                opts.append((v, "raw file"))
            if attrs.get(k) is not None:
                opts.append((ma.array([attrs[k]]), "raw file"))
            competing = max(competing, len(opts))
            if opts:
                exp[k], src[k] = opts[0]
        before = {k: a.data.copy() for k, a in data.items()}
        utils.add_site_geolocation(data, gps=case["gps"], site_meta=site, dataset=ds)
        t.eq(site, site0, "site metadata modified")
        if "latitude" in exp and "longitude" in exp:
            exp["longitude"] = wrap(exp["longitude"])
            la, lo = exp["latitude"], exp["longitude"]
            if max(la.max() - la.min(), lo.max() - lo.min()) < 0.009:
                exp["latitude"], exp["longitude"] = float(la.mean()), float(lo.mean())
                t.label("stationary")
            else:
                t.label("moving")
        if "altitude" in exp and exp["altitude"].max() - exp["altitude"].min() < 100:
            exp["altitude"] = float(exp["altitude"].mean())
        both = "latitude" in exp and "longitude" in exp
        for k in ("latitude", "longitude", "altitude"):
            if k not in exp:
                if k in data:  # left as it was in the input data
                    t.same(data[k].data, before[k], f"{k} without a usable source")
                continue
            t.ok(k in data, f"{k} missing")
            if k in ("latitude", "longitude") and not both:
                # a single coordinate: value and source only
                t.same(np.atleast_1d(data[k].data), exp[k], k, atol=1e-9)
            else:
                e = exp[k]
                t.same(data[k].data, e, k, rtol=1e-9, atol=1e-9)
                dims = None if isinstance(e, float) else ("time",)
                t.ok(data[k].dimensions == dims, f"{k} dimensions {data[k].dimensions}, expected {dims}")
            t.eq(data[k].source, src[k], f"source of {k}")
            t.label("src " + src[k])
        t.mark(competing > 1)
    finally:
        if ds is not None:
            ds.close()


ALL = sorted(k for k, v in vars(instruments).items() if isinstance(v, instruments.Instrument))


@c.sub("instruments", st.tuples(st.sampled_from(ALL), st.integers(-80, 80), st.integers(1, 170)), quick=250)
def _(case, t):
    """Only instruments declared to have GPS take their position from it."""
    name, lat, lon = case
    has_gps = name in ("BASTA", "FMCW94", "FMCW35", "HATPRO")
    o = CloudnetInstrument()
    o.instrument = getattr(instruments, name)
    o.site_meta = {"latitude": 1.5, "longitude": 2.5, "altitude": 3.5}
    o.data = {"latitude": CloudnetArray(np.full(3, lat + 0.25), "latitude"), "longitude": CloudnetArray(np.full(3, lon + 0.25), "longitude"),
              "altitude": CloudnetArray(np.full(3, 77.0), "altitude")}
    o.add_site_geolocation()
    t.same(o.data["latitude"].data, lat + 0.25 if has_gps else 1.5, f"{name} latitude")
    t.same(o.data["longitude"].data, lon + 0.25 if has_gps else 2.5, f"{name} longitude")
    t.same(o.data["altitude"].data, 3.5, f"{name} altitude")
    t.mark(has_gps)


c.main()
