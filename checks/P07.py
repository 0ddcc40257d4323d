import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime
import hashlib
from pathlib import Path

import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy import concat_lib
from cloudnetpy.exceptions import ValidTimeStampError

c = Check(
    "P07",
    "Cases are sets of NetCDF files of one day (drawn times, range grids, 0-D to 3-D variables, packed/float/integer types, masks, missing "
    "variables, fill values, file-name orders, broken or empty files) that are concatenated, bundled, incrementally updated or truncated; the "
    "oracle stacks the per-file arrays in plain numpy.  Non-trivial: two or more files contribute and some variable is masked, packed, expanded, "
    "missing in a file or interpolated; for updates, a file overlaps the data already present.",
    ["files of one call share variable types, packing, time units and all dimensions except time and range"],
)
DIMS = [(), ("range",), ("time",), ("time",), ("time", "range"), ("time", "range"), ("x",), ("time", "x"), ("time", "range", "x"), ("time", "x", "range")]


@st.composite
def varspec(draw, i, dims=DIMS):
    return {
        "name": draw(st.sampled_from([f"v{i}", f"v{i}", f"v{i}", f"_v{i}"])),
        "dims": list(draw(st.sampled_from(dims))),
        "dtype": draw(st.sampled_from(["f4", "f8", "i4", "i2", "packed"])),
        "fill": draw(st.sampled_from([None, -999, -9])),
        "attr": draw(st.sampled_from([None, "m", "K km-1"])),
        "seed": draw(st.integers(0, 2**31)),
    }


@st.composite
def fileset(draw, update=False):
    n = draw(st.integers(1, 4))
    specs = [draw(varspec(i)) for i in range(draw(st.integers(1, 5)))]
    nr = draw(st.integers(1, 4))
    files = []
    t0 = 0
    for i in range(n):
        nt = draw(st.sampled_from([0, 1, 2, 3, 4] if not update else [1, 2, 3, 4]))
        gaps = draw(st.lists(st.integers(1, 9), min_size=nt, max_size=nt))
        start = t0 if not update else max(0, t0 - draw(st.integers(0, 15)))
        times = list(np.cumsum([start] + gaps)[1:].tolist())
        t0 = max([t0] + times)
        files.append({
            "times": times,
            "range": draw(st.one_of(st.none(), st.lists(st.integers(0, 40), min_size=1, max_size=6, unique=True))) if not update else None,
            "missing": draw(st.lists(st.integers(0, 4), max_size=1)),
            "fill": draw(st.sampled_from([None, None, -77])),
            "attrs": draw(st.dictionaries(st.sampled_from(["title", "history", "n"]), st.sampled_from(["a", "b c", 5]), max_size=3)),
            "seed": draw(st.integers(0, 2**31)),
            "longer_x": False,
        })
    return {"specs": specs, "nr": nr, "nx": draw(st.integers(1, 3)), "files": files, "perm": draw(st.permutations(range(n))), "format": draw(st.sampled_from(["NETCDF4", "NETCDF4_CLASSIC"]))}


def shape_of(spec, nt, nr, nx):
    return tuple({"time": nt, "range": nr, "x": nx}[d] for d in spec["dims"])


def values(spec, f, k, nr, nx):
    r = rng(spec["seed"] ^ f["seed"] ^ (k * 7919))
    sh = shape_of(spec, len(f["times"]), nr, nx)
    v = r.integers(1, 2000, sh)
    m = r.random(sh) < r.choice([0, 0.3, 1.0])
    if spec["dtype"] == "packed":
        v = v * 0.5 + 10
    elif spec["dtype"][0] == "f":
        v = v / 8
    return ma.array(v, mask=m)


def write(path, case, k, tdim="time", fname_fill=True, units="hours since 2020-05-05 00:00:00"):
    """Writes file k; returns {name: array of decoded values}."""
    f = case["files"][k]
    nr = len(f["range"]) if f["range"] else case["nr"]
    out = {}
    with netCDF4.Dataset(path, "w", format=case["format"]) as nc:
        nc.createDimension(tdim, None)
        nc.createDimension("range", nr)
        nc.createDimension("x", case["nx"])
        for a, v in f["attrs"].items():
            setattr(nc, a, v)
        t = nc.createVariable(tdim, "f8", (tdim,)); t.units = units
        t[:] = np.array(f["times"], float)
        rg = np.array(f["range"] if f["range"] else range(0, 10 * nr, 10), float)
        v = nc.createVariable("range", "f4", ("range",)); v[:] = rg; v.units = "m"
        out["range"], out["time"] = rg, np.array(f["times"], float)
        for i, s in enumerate(case["specs"]):
            if i in f["missing"] and k > 0:
                continue
            arr = values(s, f, k, nr, case["nx"])
            dt = "i2" if s["dtype"] == "packed" else s["dtype"]
            fill = f["fill"] if f["fill"] is not None and s["fill"] is not None and k > 0 else s["fill"]
            v = nc.createVariable(s["name"], dt, tuple(tdim if d == "time" else d for d in s["dims"]), fill_value=fill)
            if s["attr"]:
                v.units = s["attr"]
            if s["dtype"] == "packed":
                v.scale_factor, v.add_offset = 0.5, 10.0
            v[:] = arr
            out[s["name"]] = arr
    return out


def digest(p):
    return hashlib.sha1(open(p, "rb").read()).hexdigest()


def names_for(case):
    n = len(case["files"])
    return [f"f{case['perm'].index(i)}.nc" for i in range(n)]  # file i has rank perm.index(i)


def expected(case, data, order, spec, k0):
    """Stacked expectation and an array telling which cells are ambiguous (ties)."""
    nx = case["nx"]
    rg0 = data[k0]["range"]
    parts, amb = [], []
    has_t = "time" in spec["dims"]
    for k in order:
        nt = len(case["files"][k]["times"])
        d = data[k]
        dims = spec["dims"] if has_t else ["time"] + spec["dims"]
        full = tuple({"time": nt, "range": len(rg0), "x": nx}[q] for q in dims)
        if spec["name"] not in d:
            parts.append(ma.masked_all(full)); amb.append(np.zeros(full, bool)); continue
        a = ma.array(d[spec["name"]], copy=True)
        if not has_t:
            a = ma.array(np.broadcast_to(a.data, (nt,) + a.shape), mask=np.broadcast_to(ma.getmaskarray(a), (nt,) + a.shape))
        am = np.zeros(full, bool)
        if "range" in dims and len(d["range"]) != len(rg0):
            ax = dims.index("range")
            x = d["range"]
            dist = np.abs(x[:, None] - rg0[None, :])
            idx = dist.argmin(axis=0)
            tie = (dist == dist.min(axis=0)).sum(axis=0) > 1
            oob = (rg0 < x.min()) | (rg0 > x.max())
            a = ma.array(np.take(a.data, idx, axis=ax), mask=np.take(ma.getmaskarray(a), idx, axis=ax))
            sl = [slice(None)] * a.ndim
            sl[ax] = oob
            a[tuple(sl)] = ma.masked
            sl[ax] = tie & ~oob
            am[tuple(sl)] = True
        parts.append(a); amb.append(am)
    return ma.concatenate(parts), np.concatenate(amb)


def compare(t, got, exp, amb, what):
    t.ok(got.shape == exp.shape, f"{what}: shape {got.shape}, expected {exp.shape}")
    g, e = ma.array(got, copy=True), ma.array(exp, copy=True)
    g[amb] = ma.masked
    e[amb] = ma.masked
    t.same(g, e, what, rtol=0, atol=0)


@c.sub("concatenate", st.tuples(fileset(), st.one_of(st.none(), st.lists(st.integers(0, 4), max_size=3, unique=True)), st.lists(st.integers(0, 4), max_size=1), st.one_of(st.none(), st.dictionaries(st.sampled_from(["title", "extra"]), st.sampled_from(["z", 7]), max_size=2)), st.sampled_from(["time", "time", "profile"]), st.booleans()), quick=150, shards=6)
def _(case, t):
    d, keep, ignore, new, tdim, as_path = case
    names = names_for(d)
    files = [t.path(x) for x in names]
    order_all = sorted(range(len(files)), key=lambda k: names[k])
    # the first file in name order defines the layout: let it have every variable
    order = [k for k in order_all if d["files"][k]["times"]]
    for k in order[:1]:
        d["files"][k]["missing"], d["files"][k]["fill"] = [], None
    data = [write(p, d, k, tdim) for k, p in enumerate(files)]
    dig = [digest(p) for p in files]
    out = t.path("out.nc")
    specs = d["specs"]
    keepn = None if keep is None else [s["name"] for i, s in enumerate(specs) if i in keep]
    ign = [s["name"] for i, s in enumerate(specs) if i in ignore]
    kw = {}
    if keepn is not None:
        kw["variables"] = keepn
    if ign:
        kw["ignore"] = ign
    if new is not None:
        kw["new_attributes"] = new
    arg = [Path(p) for p in files] if as_path else files
    if not order:
        try:
            concat_lib.concatenate_files(arg, out, concat_dimension=tdim, **kw)
        except ValidTimeStampError:
            return
        t.fail("no file has data, but ValidTimeStampError was not raised")
    res = concat_lib.concatenate_files(arg, out, concat_dimension=tdim, **kw)
    t.eq([str(x) for x in res], [files[k] for k in order], "returned files")
    t.eq([digest(p) for p in files], dig, "input files unchanged")
    k0 = order[0]
    inter = False
    with netCDF4.Dataset(out) as nc:
        t.same(nc[tdim][:], np.concatenate([data[k]["time"] for k in order]), tdim, rtol=0, atol=0)
        t.same(nc["range"][:], data[k0]["range"], "range", rtol=0, atol=0)
        t.eq(nc["range"].dimensions, ("range",), "dimensions of range")
        t.eq(nc[tdim].units, "hours since 2020-05-05 00:00:00", "time units")
        exp_vars = {tdim, "range"}
        for s in specs:
            if s["name"] in ign or (keepn is not None and s["name"] not in keepn and "time" in s["dims"]):
                continue
            exp_vars.add(s["name"])
        t.eq(set(nc.variables), exp_vars, "variables")
        for s in specs:
            if s["name"] not in exp_vars:
                continue
            v = nc[s["name"]]
            exp, amb = expected(d, data, order, s, k0)
            dims = tuple(tdim if q == "time" else q for q in s["dims"])
            if "time" not in s["dims"]:
                dims = (tdim,) + dims
            t.eq(v.dimensions, dims, f"dimensions of {s['name']}")
            compare(t, v[:], exp, amb, f"{s['name']} {dims}")
            t.eq(getattr(v, "units", None), s["attr"], "variable attribute")
            if s["dims"] or not ma.getmaskarray(data[k0][s["name"]]).all():
                t.eq(v.dtype.str[1:], {"packed": "i2"}.get(s["dtype"], s["dtype"]), "stored type")
        attrs = dict(d["files"][k0]["attrs"])
        if new:
            attrs.update(new)
        t.eq({a: nc.getncattr(a) for a in nc.ncattrs()}, attrs, "global attributes")
    multi = len(order) > 1
    t.mark(multi and any(len(data[k]["range"]) != len(data[k0]["range"]) for k in order[1:]), "range regridded")
    t.mark(multi and any(d["files"][k]["missing"] for k in order[1:]), "missing variable")
    t.mark(multi and any("time" not in s["dims"] for s in specs), "expanded")
    t.mark(multi and any(s["dtype"] == "packed" for s in specs), "packed")
    t.label("empty file skipped", len(order) < len(files))


DIMS_U = [("time",), ("time", "range"), ("time", "range", "x"), ("range",), ()]


@st.composite
def update_case(draw):
    d = draw(fileset(update=True))
    for i, s in enumerate(d["specs"]):
        s["dims"] = list(draw(st.sampled_from(DIMS_U)))
    d["steps"] = draw(st.lists(st.integers(0, 4), max_size=6))
    return d


@c.sub("update", update_case(), quick=150, shards=4)
def _(d, t):
    n = len(d["files"])
    files = [t.path(f"f{k}.nc") for k in range(n)]
    data = [write(p, d, k) for k, p in enumerate(files)]
    broken = t.path("broken.nc")
    open(broken, "wb").write(b"\x89HDF garbage")
    dig = [digest(p) for p in files]
    out = t.path("daily.nc")
    with open(files[0], "rb") as a, open(out, "wb") as b:
        b.write(a.read())
    rows = [(0, i) for i in range(len(d["files"][0]["times"]))]
    last = d["files"][0]["times"][-1]
    steps = d["steps"] + list(range(n))
    for s in steps:
        if s >= n:
            t.eq(concat_lib.update_nc(out, broken), 0, "unreadable new file")
            continue
        add = [(s, i) for i, x in enumerate(d["files"][s]["times"]) if x > last]
        before = digest(out)
        ret = concat_lib.update_nc(out, files[s])
        t.eq(ret, int(bool(add)), f"return value when adding {len(add)} new profiles")
        rows += add
        if add:
            last = d["files"][s]["times"][-1]
            t.mark(len(add) < len(d["files"][s]["times"]), "partial overlap")
        else:
            t.label("repeated update")
        with netCDF4.Dataset(out) as nc:
            exp_t = np.array([d["files"][k]["times"][i] for k, i in rows], float)
            t.same(nc["time"][:], exp_t, "time after update", rtol=0, atol=0)
            for sp in d["specs"]:
                v = nc[sp["name"]]
                if "time" not in sp["dims"]:
                    t.same(v[:], data[0][sp["name"]], sp["name"] + " (no time dimension)", rtol=0, atol=0)
                    continue
                full = shape_of(sp, 1, d["nr"], d["nx"])
                parts = []
                for k, i in rows:
                    a = data[k].get(sp["name"])
                    parts.append(ma.masked_all(full) if a is None else a[i:i + 1])
                t.same(v[:], ma.concatenate(parts), sp["name"] + " after update", rtol=0, atol=0)
    t.eq([digest(p) for p in files], dig, "input files unchanged")


@st.composite
def bundle_case(draw):
    d = draw(fileset())
    for i, f in enumerate(d["files"]):
        f["range"] = None
        f["missing"], f["fill"] = [], None
        base = draw(st.sampled_from([0, 0, 86400, -86400, 86400 - 10, 86400 - 2, -1, -2, -3, -10]))
        if not f["times"]:
            f["times"] = [3 + i]
        f["times"] = [base + x for x in f["times"]]
        f["broken"] = i > 0 and draw(st.integers(0, 5)) == 0
    if draw(st.booleans()):
        d["specs"][-1]["name"] = draw(st.sampled_from(["minimum", "maximum", "number_integrated_samples", "Min_LWP", "Max_LWP"]))
    d["ignored"] = ["minimum", "maximum", "number_integrated_samples", "Min_LWP", "Max_LWP"]
    d["keep"] = draw(st.sampled_from([None, None, ["v0"], ["v0", "v1"]]))
    return d


@c.sub("bundle", bundle_case(), quick=120, shards=3)
def _(d, t):
    n = len(d["files"])
    names = names_for(d)
    files = [t.path(x) for x in names]
    date = datetime.date(2020, 5, 5)
    data = []
    for k, p in enumerate(files):
        data.append(write(p, d, k, units="seconds since 2020-05-05 00:00:00"))
        if d["files"][k]["broken"]:
            open(p, "wb").write(b"\x89HDF broken")
    out = t.path("out.nc")
    dig = [digest(p) for p in files]
    kw = {"variables": d["keep"]} if d["keep"] else {}
    use = [k for k in range(n) if not d["files"][k]["broken"] and any(0 <= x < 86400 for x in d["files"][k]["times"])]
    if n == 1:
        t.eq(concat_lib.bundle_netcdf_files(files, date, out, **kw), files, "returned files")
        t.eq(digest(out), dig[0], "a single file is copied")
        return
    if not use:
        try:
            concat_lib.bundle_netcdf_files(files, date, out, **kw)
        except ValidTimeStampError:
            return
        t.fail("no file of the date, but ValidTimeStampError was not raised")
    res = concat_lib.bundle_netcdf_files(files, date, out, **kw)
    t.eq(list(res), [files[k] for k in use], "returned files")
    t.eq([digest(p) for p in files], dig, "input files unchanged")
    order = sorted(use, key=lambda k: names[k])
    t.mark(len(order) > 1 and len(order) < n, "subset of files")
    with netCDF4.Dataset(out) as nc:
        t.same(nc["time"][:], np.concatenate([data[k]["time"] for k in order]), "time", rtol=0, atol=0)
        for s in d["specs"]:
            drop = s["name"] in d["ignored"] or (d["keep"] and s["name"] not in d["keep"] and "time" in s["dims"])
            t.eq(s["name"] in nc.variables, not drop, f"presence of {s['name']}")
            if not drop:
                exp, amb = expected(d, data, order, s, order[0])
                compare(t, nc[s["name"]][:], exp, amb, s["name"])


@c.sub("truncate", st.tuples(fileset(), st.integers(0, 5), st.booleans()), quick=120, shards=2)
def _(case, t):
    d, n, extra = case
    d["files"] = d["files"][:1]
    f, out = t.path("a.nc"), t.path("b.nc")
    write(f, d, 0)
    dig = digest(f)
    nt = len(d["files"][0]["times"])
    concat_lib.truncate_netcdf_file(f, out, n)
    t.eq(digest(f), dig, "input file unchanged")
    with netCDF4.Dataset(out) as nc, netCDF4.Dataset(f) as src:
        m = min(n, nt)
        t.eq(set(nc.variables), set(src.variables), "variables")
        t.eq({a: nc.getncattr(a) for a in nc.ncattrs()}, {a: src.getncattr(a) for a in src.ncattrs()}, "global attributes")
        for name, v in src.variables.items():
            exp = v[:m] if v.dimensions and v.dimensions[0] == "time" else v[:]
            t.same(nc[name][:], exp, name, rtol=0, atol=0)
            t.eq(nc[name].dimensions, v.dimensions, "dimensions")
            t.eq(getattr(nc[name], "units", None), getattr(v, "units", None), "units")
    t.mark(m < nt)


@c.sub("text", st.tuples(st.lists(st.binary(max_size=40), min_size=1, max_size=5)), quick=60)
def _(case, t):
    (parts,) = case
    files = []
    for i, b in enumerate(parts):
        b = b if isinstance(b, bytes) else bytes.fromhex(b)
        files.append(t.path(f"{9 - i}.txt"))
        open(files[-1], "wb").write(b)
    concat_lib.concatenate_text_files(files, t.path("o.txt"))
    exp = b"".join(b if isinstance(b, bytes) else bytes.fromhex(b) for b in parts)
    t.eq(open(t.path("o.txt"), "rb").read(), exp, "concatenated bytes")
    t.mark(len(parts) > 1 and len(exp) > 0)


c.main()
