import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime
import re
import uuid as uuidlib
from types import SimpleNamespace

import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy import output, utils
from cloudnetpy.cloudnetarray import CloudnetArray
from cloudnetpy.datasource import DataSource
from cloudnetpy.instruments import instruments
from cloudnetpy.metadata import COMMON_ATTRIBUTES, MetaData

c = Check(
    "P05",
    "Cases are sets of named arrays (0-D to 2-D, float/int types, plain or masked incl. fully masked, drawn value by value) with optional "
    "metadata, written as a level-1b or product file and read back with netCDF4; the oracle is the generated content itself.  Non-trivial: "
    "at least one masked 1-D/2-D array and one integer or scalar array are present.",
    ["values fit the declared storage type and are not equal to a type's default fill value"],
)
ALL = sorted(k for k, v in vars(instruments).items() if isinstance(v, instruments.Instrument))
READABLE = {"lwc": "iquid water content", "iwc": "ce water content", "drizzle": "rizzle", "classification": "lassification", "der": "roplet effective radius", "ier": "ce effective radius", "epsilon-radar": "issipation rate of turbulent kinetic energy"}
KNOWN = [k for k, v in COMMON_ATTRIBUTES.items() if v.dimensions in (("time",), ("range",), ("time", "range"), None) and k not in ("time", "range", "height", "altitude", "latitude", "longitude")]
TEXT = st.text(alphabet="abc XYZ_0-9.:;()\nμ°", min_size=1, max_size=12).filter(lambda s: s.strip() == s and s)
NUM = st.integers(-10**6, 10**6)


@st.composite
def array_spec(draw, i):
    dims = draw(st.sampled_from([[], ["time"], ["range"], ["time", "range"]]))
    dtype = draw(st.sampled_from(["f4", "f8", "f8", "i2", "i4", "i8"]))
    return {
        "name": draw(st.sampled_from([f"var{i}", f"var{i}", f"var{i}"] + KNOWN)),
        "dims": dims,
        "dtype": dtype,
        "explicit": draw(st.sampled_from([None, None, "f4", "f8", "i4"])),
        "vals": draw(st.lists(NUM, min_size=6, max_size=6)),
        "mask": draw(st.sampled_from(["plain", "plain", "none", "some", "some", "all"])),
        "units": draw(st.one_of(st.none(), TEXT)),
        "source": draw(st.one_of(st.none(), TEXT)),
        "meta": draw(st.one_of(st.none(), st.fixed_dictionaries({"long_name": TEXT, "comment": st.one_of(st.none(), TEXT), "units": st.one_of(st.none(), TEXT), "standard_name": st.one_of(st.none(), TEXT)}))),
        "wrong_unit": draw(st.integers(0, 8)) == 0,
    }


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    specs = [draw(array_spec(i)) for i in range(n)]
    return {
        "nt": draw(st.integers(1, 4)), "nr": draw(st.integers(1, 4)), "arrays": specs,
        "date": draw(st.dates(datetime.date(1990, 1, 1), datetime.date(2035, 12, 31))).isoformat(),
        "inst": draw(st.sampled_from(ALL)), "name": draw(TEXT),
        "serial": draw(st.one_of(st.none(), TEXT)), "soft": draw(st.dictionaries(st.sampled_from(["fw", "mwrpy"]), TEXT, max_size=2)),
        "uuid": draw(st.uuids()).hex, "short": draw(st.sampled_from(["lwc", "iwc", "drizzle", "classification", "der", "ier", "epsilon-radar"])),
        "copy": draw(st.lists(st.integers(0, 4), max_size=3)),
    }


def build(spec, nt, nr):
    shape = tuple({"time": nt, "range": nr}[d] for d in spec["dims"])
    n = int(np.prod(shape)) if shape else 1
    v = np.resize(np.array(spec["vals"], dtype=float), n).reshape(shape)
    if spec["dtype"][0] == "f":
        v = v / 8
    elif spec["dtype"] == "i2":
        v = v % 30000
    if spec["explicit"] in ("i4",):
        v = np.round(v)
    v = np.asarray(v.astype(spec["dtype"]))
    m = np.zeros(shape, bool)
    if spec["mask"] == "some":
        m = (np.arange(n) % 2 == 0).reshape(shape)
    elif spec["mask"] == "all":
        m = np.ones(shape, bool)
    if not shape:
        m = np.array(False)
        arr = v if spec["mask"] != "all" else v
        return arr, v, m
    return (v.copy() if spec["mask"] == "plain" else ma.array(v.copy(), mask=m)), v, (m if spec["mask"] != "plain" else np.zeros(shape, bool))


def stored(spec, v):
    dt = spec["explicit"] or {"f4": "f4", "f8": "f4", "i2": "i2", "i4": "i4", "i8": "i4"}[spec["dtype"]]
    return dt, np.asarray(v).astype(dt)


def unique(arrays):
    out, seen = [], set()
    for a in arrays:
        if a["name"] not in seen:
            seen.add(a["name"]); out.append(a)
    return out


def level1b(case, t, path):
    nt, nr = case["nt"], case["nr"]
    date = datetime.date.fromisoformat(case["date"])
    data, exp = {}, {}
    data["time"] = CloudnetArray((np.arange(nt) + 0.5) / 3, "time", data_type="f8")
    data["range"] = CloudnetArray(100.0 + np.arange(nr) * 30, "range")
    data["height"] = CloudnetArray(150.0 + np.arange(nr) * 30, "height")
    data["altitude"] = CloudnetArray(50.0, "altitude")
    data["latitude"] = CloudnetArray(60.0, "latitude")
    data["longitude"] = CloudnetArray(-25.0, "longitude")
    attributes = output.add_time_attribute({}, date)
    for k in ("altitude", "latitude", "longitude"):
        attributes[k] = COMMON_ATTRIBUTES[k]._replace(dimensions=None)
    for spec in unique(case["arrays"]):
        arr, v, m = build(spec, nt, nr)
        a = CloudnetArray(arr, spec["name"], units_from_user=spec["units"], dimensions=tuple(spec["dims"]) or None, data_type=spec["explicit"], source=spec["source"])
        data[spec["name"]] = a
        base = COMMON_ATTRIBUTES.get(spec["name"])
        meta = dict(spec["meta"] or {})
        if spec["meta"]:
            attributes[spec["name"]] = MetaData(dimensions=tuple(spec["dims"]) or None, **meta)
        elif base is not None:
            attributes[spec["name"]] = MetaData(long_name="Own name", dimensions=tuple(spec["dims"]) or None)
            meta = {"long_name": "Own name"}
        e = {"units": spec["units"] or "", "source": spec["source"]}
        for src in ([base._asdict()] if base else []) + [meta]:
            for k, x in src.items():
                if k != "dimensions" and x:
                    e[k] = x
        exp[spec["name"]] = (spec, v, m, e)
    output.update_attributes(data, attributes)
    for name, (spec, v, m, e) in exp.items():
        if spec["wrong_unit"]:
            data[name].unit = "zz"
            e["units"] = "zz"
    obj = SimpleNamespace(data=data, date=date, instrument=getattr(instruments, case["inst"]), site_meta={"name": case["name"]}, software=case["soft"], serial_number=case["serial"])
    uid = utils.get_uuid(str(uuidlib.UUID(case["uuid"])))
    output.save_level1b(obj, path, uid)
    return obj, exp, uid


def check_var(t, nc, name, spec, v, m, e, dims):
    var = t.var(nc, name)
    t.eq(var.dimensions, tuple(dims), f"dimensions of {name}")
    dt, sv = stored(spec, v)
    t.eq(var.dtype, np.dtype(dt), f"data type of {name}")
    t.same(var[:], ma.array(sv, mask=m), f"{name}", rtol=1e-6)
    if m.any():
        var.set_auto_mask(False)
        raw = var[:]
        var.set_auto_mask(True)
        t.ok("_FillValue" in var.ncattrs() and np.all(raw[m] == var._FillValue), f"missing values of {name} are not the fill value")
        t.ok(not np.any(raw[~m] == var._FillValue), f"valid values of {name} equal the fill value")
    for k, x in e.items():
        if x is not None:
            t.eq(getattr(var, k, None), x, f"attribute {k} of {name}")
    extra = set(var.ncattrs()) - {k for k, x in e.items() if x is not None} - {"_FillValue", "units"}
    t.ok(not extra, f"unexpected attributes {extra} on {name}")


@c.sub("level1b", cases(), quick=250, shards=3)
def _(case, t):
    path = t.path("a.nc")
    obj, exp, uid = level1b(case, t, path)
    t.eq(uid, uuidlib.UUID(case["uuid"]), "requested identifier")
    inst = obj.instrument
    d = obj.date
    with netCDF4.Dataset(path) as nc:
        for name, (spec, v, m, e) in exp.items():
            check_var(t, nc, name, spec, v, m, e, spec["dims"])
        t.eq(set(nc.variables), set(obj.data), "variables")
        t.eq({k: len(x) for k, x in nc.dimensions.items()}, {"time": case["nt"], "range": case["nr"]}, "dimensions")
        t.same(nc["time"][:], (np.arange(case["nt"]) + 0.5) / 3, "time", rtol=1e-12)
        t.eq(nc["time"].units, f"hours since {d.isoformat()} 00:00:00 +00:00", "time units")
        t.eq(nc["time"].dtype, np.dtype("f8"), "time type")
        for k in ("calendar", "standard_name", "axis"):
            t.eq(getattr(nc["time"], k, None), getattr(COMMON_ATTRIBUTES["time"], k), f"time {k}")
        t.eq(nc.data_model, "NETCDF4_CLASSIC", "format")
        t.eq((nc.year, nc.month, nc.day), (f"{d.year}", f"{d.month:02d}", f"{d.day:02d}"), "date")
        t.eq(nc.file_uuid, str(uid), "file_uuid")
        t.eq(nc.cloudnet_file_type, inst.domain, "file type")
        t.eq(nc.Conventions, "CF-1.8", "conventions")
        t.eq(nc.location, case["name"], "location")
        head = " ".join(x for x in (inst.model, inst.category) if x) if inst.model else inst.category.capitalize()
        t.eq(nc.title, f"{head} from {case['name']}", "title")
        t.ok(re.fullmatch(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \+00:00 - " + re.escape(inst.domain) + " file created", nc.history), f"history {nc.history!r}")
        src = " ".join(x for x in (inst.manufacturer, inst.model) if x) or inst.category.capitalize()
        t.eq(nc.source, src, "source")
        t.eq(getattr(nc, "serial_number", None), case["serial"], "serial number")
        for k, x in case["soft"].items():
            t.eq(getattr(nc, f"{k}_version", None), x, "software version")
        t.ok(len(nc.references) > 0 and nc.cloudnetpy_version, "references/version")
    t.mark(any(m.any() for _, _, m, _ in exp.values()) and any(s["dtype"][0] == "i" or not s["dims"] for s, *_ in exp.values()))


@c.sub("product", cases(), quick=250, shards=3)
def _(case, t):
    """A product derived from a level-1b-like file: copied variables are identical, own variables are exact."""
    src = t.path("src.nc")
    obj, exp, uid0 = level1b(case, t, src)
    names = list(exp)
    copy = tuple(names[i % len(names)] for i in case["copy"] if exp[names[i % len(names)]][0]["dims"] in ([], ["time"]))
    nt, nr = case["nt"], case["nr"]
    out = t.path("out.nc")
    own = {}
    with DataSource(src) as ds:
        # a product is on the time/height grid
        for i, spec in enumerate(unique(case["arrays"])):
            arr, v, m = build(spec, nt, nr)
            name = f"own{i}"
            dims = tuple({"range": "height"}.get(x, x) for x in spec["dims"])
            ds.append_data(arr, name, units=spec["units"], dtype=spec["explicit"])
            own[name] = (spec, v, m, {"units": spec["units"] or "", **({k: x for k, x in (spec["meta"] or {}).items() if x})})
            if dims:
                md = MetaData(dimensions=dims, **(spec["meta"] or {"long_name": "n"}))
                if not spec["meta"]:
                    own[name][3]["long_name"] = "n"
            else:
                md = MetaData(dimensions=None, **(spec["meta"] or {"long_name": "n"}))
                if not spec["meta"]:
                    own[name][3]["long_name"] = "n"
            output.update_attributes({name: ds.data[name]}, {name: md})
        # height is on its own dimension in products
        ds.append_data(ds.dataset.variables["height"][:], "height")
        ds.data["height"].dimensions = ("height",)
        output.save_product_file(case["short"], ds, out, uuidlib.UUID(case["uuid"][::-1]) if False else uuidlib.UUID(int=5), copy_from_cat=copy)
    with netCDF4.Dataset(out) as nc, netCDF4.Dataset(src) as s:
        for name, (spec, v, m, e) in own.items():
            check_var(t, nc, name, spec, v, m, e, tuple({"range": "height"}.get(x, x) for x in spec["dims"]))
        for name in ("time", "altitude", "latitude", "longitude", *copy):
            a, b = t.var(nc, name), s[name]
            t.eq((a.dimensions, a.dtype), (b.dimensions, b.dtype), f"copied {name}: dimensions and type")
            t.same(a[:], b[:], f"copied {name}", rtol=0, atol=0)
            t.eq({k: a.getncattr(k) for k in a.ncattrs()}, {k: b.getncattr(k) for k in b.ncattrs()}, f"copied {name}: attributes")
        t.eq(set(nc.variables), set(own) | {"time", "altitude", "latitude", "longitude", "height", *copy}, "variables")
        t.eq(nc.cloudnet_file_type, case["short"], "file type")
        t.eq(nc.file_uuid, str(uuidlib.UUID(int=5)), "file_uuid")
        t.eq(nc.source_file_uuids, str(uid0), "source identifiers")
        for k in ("location", "day", "month", "year", "source"):
            t.eq(getattr(nc, k, None), getattr(s, k), f"global attribute {k}")
        t.ok(s.location in nc.title and READABLE[case["short"]] in nc.title, lambda: f"title {nc.title!r} names product and site")
        t.ok(len(nc.references) > 0, "references")
        t.eq(nc.Conventions, "CF-1.8", "conventions")
        lines = nc.history.split("\n")
        t.eq(lines[1:], s.history.split("\n"), "source history")
        t.ok(lines[0].endswith(" file created"), "own history entry")
    t.mark(any(m.any() for _, _, m, _ in own.values()) and len(copy) > 0)


@c.sub("masking", st.tuples(st.lists(st.lists(st.sampled_from([0, 0, 1]), min_size=4, max_size=4), min_size=2, max_size=5), st.booleans(), st.integers(0, 3)), quick=150)
def _(case, t):
    """Pixel filters of an array mask exactly the isolated pixels and nothing else."""
    on, plain, j = case
    on = np.array(on, bool)
    if plain:
        on[:] = True
    v = np.arange(on.size, dtype=float).reshape(on.shape)
    for kind in ("filter_isolated_pixels", "filter_vertical_stripes", "mask_indices"):
        a = CloudnetArray(v.copy() if plain else ma.array(v.copy(), mask=~on), "x")
        keep = on.copy()
        if kind == "mask_indices":
            if plain:
                continue
            sel = np.zeros(on.shape, bool); sel[:, j] = True
            a.mask_indices(np.where(sel))
            keep &= ~sel
        else:
            getattr(a, kind)()
            for p, q in np.argwhere(on):
                nb = [(p + i, q + k) for i in (-1, 0, 1) for k in ((-1, 0, 1) if kind == "filter_isolated_pixels" else (0,)) if (i, k) != (0, 0)]
                keep[p, q] = any(0 <= x < on.shape[0] and 0 <= y < on.shape[1] and on[x, y] for x, y in nb)
        t.same(a.data, ma.array(v, mask=~keep), kind)
    t.mark(on.any() and not on.all())


@c.sub("uuid", st.tuples(st.uuids().map(str), st.sampled_from(["str", "uuid", "none", "hex", "bad"])), quick=100)
def _(case, t):
    u, kind = case
    if kind == "none":
        a, b = utils.get_uuid(None), utils.get_uuid(None)
        t.ok(isinstance(a, uuidlib.UUID) and a != b, "fresh identifiers are unique")
    elif kind == "bad":
        try:
            utils.get_uuid("not-a-uuid-" + u)
        except ValueError:
            return
        t.fail("invalid identifier accepted")
    else:
        arg = {"str": u, "uuid": uuidlib.UUID(u), "hex": u.replace("-", "")}[kind]
        t.eq(utils.get_uuid(arg), uuidlib.UUID(u), "requested identifier")
        t.mark()


@c.sub("array_ops", st.tuples(st.lists(st.tuples(st.integers(1, 4000).map(lambda i: i / 16), st.booleans()), min_size=1, max_size=6), st.sampled_from(["", "dB", "dBZ", "mm6 m-3"]), st.booleans()), quick=150)
def _(case, t):
    """Unit-aware conversions are applied once and keep track of the unit."""
    rows, units, plain = case
    v = np.array([r[0] for r in rows]); m = np.array([r[1] for r in rows])
    a = CloudnetArray(v.copy() if plain else ma.array(v.copy(), mask=m.copy()), "x", units_from_user=units)
    e = v if plain else ma.array(v, mask=m)
    is_db = "db" in units.lower()
    a.lin2db()
    t.same(a.data, e if is_db else 10 * ma.log10(e) if not plain else 10 * np.log10(v), "lin2db", rtol=1e-6)
    t.eq(a.units, units if is_db else "dB", "units after lin2db")
    once = a.data.copy()
    a.lin2db()
    t.same(a.data, once, "second lin2db changes nothing", rtol=0)
    a.db2lin()
    t.same(a.data, (10 ** (np.asarray(v) / 10) if plain else ma.array(10 ** (v / 10), mask=m)) if is_db else e, "db2lin", rtol=1e-5)
    t.ok("db" not in a.units.lower(), "units after db2lin")
    once = a.data.copy()
    a.db2lin()
    t.same(a.data, once, "second db2lin changes nothing", rtol=0)
    t.mark(not plain and m.any())


c.main()
