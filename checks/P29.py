import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import contextlib
import datetime
import glob
import hashlib
import inspect
import pathlib
import struct

import mwrpy.level1.write_lev1_nc as lev1
import mwrpy.level2.lev2_collocated as lev2
import netCDF4
import requests
from hypothesis import strategies as st
from mwrpy.exceptions import MissingInputData
from mwrpy.level1.lev1_meta_nc import get_data_attributes
from mwrpy.rpg_mwr import Rpg
from mwrpy.version import __version__ as MWRPY
from numpy import ma

import cloudnetpy.instruments.hatpro
import cloudnetpy.products.mwr_tools
from cloudnetpy.exceptions import HatproDataError, ValidTimeStampError
from cloudnetpy.instruments import hatpro2l1c
from cloudnetpy.products import generate_mwr_lhumpro, generate_mwr_multi, generate_mwr_single

c = Check(
    "P29",
    "Generated brightness temperatures, housekeeping, weather and infrared fields (gaps, duplicated and foreign days, flags) go through the level 1c conversion, once with the radiometer package itself reading generated raw files and once with a stand-in returning generated fields; level 1c files go through the single- and multiple-pointing products with the package itself and with a stand-in.  "
    "The files are compared value by value with what the package computed and was given.  Non-trivial: at least three profiles of which some are flagged.",
    ["quality control and retrievals of the radiometer package (mwrpy) are taken as they are"],
)
UID = "12345678-1234-5678-1234-567812345678"
DAY = datetime.date(2023, 4, 1)
EPOCH = datetime.datetime(2023, 4, 1, tzinfo=datetime.timezone.utc).timestamp()
F14 = [22.24, 23.04, 23.84, 25.44, 26.24, 27.84, 31.4, 51.26, 52.28, 53.86, 54.94, 56.66, 57.3, 58.0]
TB = np.array([30, 29, 26, 22, 20, 18, 18, 110, 150, 245, 275, 278, 279, 279.0])
MODEL = {"hatpro": "HATPRO", "lhatpro": "LHATPRO", "lhumpro_u90": "LHUMPRO-U90"}
COEFFICIENTS = sorted(glob.glob(os.path.join(REPO, "tests/unit/data/hatpro-mwrpy-coeffs/*.ret")))


@contextlib.contextmanager
def stand_ins(pairs):
    """Replaces functions wherever cloudnetpy refers to them."""
    undo = []
    mods = [m for n, m in list(sys.modules.items()) if (n == "cloudnetpy" or n.startswith("cloudnetpy.")) and m is not None]
    mods += [lev1, lev2]
    try:
        for old, new in pairs:
            for m in mods:
                for k, v in list(vars(m).items()):
                    if v is old:
                        undo.append((m, k, old))
                        setattr(m, k, new)
        yield
    finally:
        for m, k, old in undo:
            setattr(m, k, old)


def digest(path):
    return hashlib.sha256(pathlib.Path(path).read_bytes()).hexdigest()


def write_lidar(path):
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        nc.setncatts({"source": "Vaisala CL61d", "history": "2023-04-02 00:00:00 +00:00 - lidar file created", "cloudnet_file_type": "lidar"})


def same_field(t, name, got, expect):
    expect = ma.array(expect)
    t.eq(got.shape, expect.shape, f"shape of {name}")
    t.ok((ma.getmaskarray(got) == ma.getmaskarray(expect)).all(), f"mask of {name}")
    a, b = ma.filled(ma.array(got, dtype=float), 0), ma.filled(ma.array(expect, dtype=float), 0)
    if not np.allclose(a, b.astype("f4"), rtol=3e-7, atol=0, equal_nan=True):
        k = int(np.argmax(np.abs(a - b)))
        t.fail(f"{name} is {np.ravel(a)[k]!r} in place of {np.ravel(b)[k]!r}")


def check_l1c(t, nc, data, uid, meta, itype, lidar):
    """The level 1c file holds the fields of the radiometer package."""
    seconds = np.asarray(data["time"].data, dtype=float)
    day = datetime.datetime.fromtimestamp(float(np.median(seconds)), datetime.timezone.utc).date()
    start = datetime.datetime(day.year, day.month, day.day, tzinfo=datetime.timezone.utc).timestamp()
    hours = (seconds - start) / 3600
    if len(hours) > 1 or hours[0] > 0:  # a single profile at midnight may count as the end of the day
        t.same(np.asarray(nc["time"][:]), hours, rtol=0, atol=1e-9, what="time")
    t.eq(nc["time"].units, f"hours since {day} 00:00:00 +00:00", "units of time")
    t.eq(nc["time"].dtype, np.dtype("f8"), "precision of time")
    for k, x in data.items():
        if k in ("time", "time_bnds", "latitude", "longitude", "altitude"):
            continue
        t.ok(k in nc.variables, f"{k} is missing")
        same_field(t, k, nc[k][:], x.data)
        dims = x.dimensions
        if dims is not None and k not in ("t_amb", "irt", "ir_wavelength"):
            t.eq(nc[k].dimensions, tuple(dims), f"dimensions of {k}")
    for k, z in (("elevation_angle", "zenith_angle"), ("ir_elevation_angle", "ir_zenith_angle")):
        if k in data:
            same_field(t, z, nc[z][:], 90 - data[k].data)
            t.eq(nc[z].dimensions, ("time",), f"dimensions of {z}")
        else:
            t.ok(z not in nc.variables, f"{z} without {k}")
    if "irt" in data:
        t.eq(nc["irt"].dimensions, ("time", nc["ir_wavelength"].dimensions[0]), "dimensions of irt")
    t.eq(nc["t_amb"].dimensions, ("time", "t_amb_nb"), "dimensions of t_amb")
    t.ok("time_bnds" not in nc.variables, "time bounds in seconds remain")
    t.eq((nc.year, nc.month, nc.day), (str(day.year), f"{day.month:02d}", f"{day.day:02d}"), "date")
    t.eq(nc.cloudnet_file_type, "mwr-l1c", "file type")
    t.eq(nc.location, meta["name"], "location")
    t.eq(nc.title, f"{MODEL[itype]} microwave radiometer Level 1c from {meta['name']}", "title")
    t.eq(nc.file_uuid, str(uid), "identifier")
    t.eq(nc.mwrpy_version, MWRPY, "version of the radiometer package")
    t.eq(nc.mwrpy_coefficients, ", ".join(meta["coefficientLinks"]), "coefficients")
    source = f"RPG-Radiometer Physics {MODEL[itype]}"
    t.eq(nc.source, source + ("\nVaisala CL61d" if lidar else ""), "source")
    h = nc.history.split("\n")
    t.eq(len(h), 1 + bool(lidar), f"lines of history {nc.history!r}")
    t.ok(h[0].endswith(" - mwr-l1c file created"), f"history {h[0]}")
    if lidar:
        t.eq(h[1], "2023-04-02 00:00:00 +00:00 - lidar file created", "history of the lidar")


# ------------------------------------------------------------------ level 1c from generated fields
@st.composite
def l1c_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"n": S(3, 1, 2, 14, 30), "itype": S("hatpro", "hatpro", "lhatpro", "lhumpro_u90"), "irt": S("two", "one", "none"), "wind": S(True, False), "bad": S(0.0, 0.3, 0.88, 0.92, 1.0, 0.9), "flag": S(1, 8, 32), "tbmask": S(0.0, 0.2), "times": S(*["good"] * 6, "equal", "back", "two days", "other day"), "date": S("given", "text", "none"), "missing": S(*[False] * 9, True),
            "lidar": S(False, True), "uuid": S(False, True), "gps": S("fixed", "fixed", "none", "partly"), "offset": S(None, 3600), "midnight": S(False, True), "seed": draw(st.integers(0, 2**31))}


def fields(case, r):
    n, nf = case["n"], {"hatpro": 14, "lhatpro": 13, "lhumpro_u90": 7}[case["itype"]]
    step = int(r.integers(1, 200))
    time = EPOCH + (0 if case["midnight"] else int(r.integers(0, 3600 * 20))) + step * np.arange(n)
    if case["times"] == "equal" and n > 1:
        time[1] = time[0]
    if case["times"] == "back" and n > 1:
        time[-1] = time[0] - 1
    if case["times"] == "two days":
        time[-1] = EPOCH + 86400 + 5
    if case["times"] == "other day":
        time = time + 86400
    time = time.astype(np.int64)
    U = lambda lo, hi, *s: r.uniform(lo, hi, s)  # noqa
    d = {"time": time, "time_bnds": np.stack([time - 1, time], 1), "rain": np.zeros(n, np.int32), "frequency": np.array(F14[:nf], "f4"), "receiver_nb": np.array([1, 2]), "receiver": np.array([1] * (nf // 2) + [2] * (nf - nf // 2)), "bandwidth": U(100, 2000, nf), "n_sidebands": np.array([1, 1]), "sideband_IF_separation": np.zeros(nf), "freq_shift": np.zeros(nf),
         "tb": ma.array(U(10, 300, n, nf).astype("f4"), mask=r.random((n, nf)) < case["tbmask"]), "azimuth_angle": U(0, 360, n), "elevation_angle": r.choice([90.0, 89.5, 30.0, 4.2], n), "liquid_cloud_flag": r.integers(0, 3, n).astype("i4"), "liquid_cloud_flag_status": np.ones(n, "i4"), "pointing_flag": r.integers(0, 2, n).astype("i4"),
         "t_amb": ma.array(U(250, 310, n, 2), mask=r.random((n, 2)) < 0.1), "t_rec": U(310, 320, n, 2), "t_sta": U(0, 1, n, 2), "tb_spectrum": U(10, 300, n, nf), "air_temperature": ma.array(U(250, 300, n), mask=r.random(n) < 0.2), "relative_humidity": U(0, 1, n), "air_pressure": U(9e4, 1e5, n), "met_quality_flag": r.integers(0, 4, n).astype("i4")}
    total = n * nf
    bad = np.zeros(total, "i4")
    bad[r.permutation(total)[: int(round(case["bad"] * total))]] = case["flag"]
    d["quality_flag"] = bad.reshape(n, nf)
    d["quality_flag_status"] = np.full((n, nf), 128, "i4")
    if case["irt"] != "none":
        k = {"two": 2, "one": 1}[case["irt"]]
        d |= {"irt": ma.array(U(200, 290, n, k), mask=r.random((n, k)) < 0.2), "ir_wavelength": np.array([11.1e-6, 12e-6][:k], "f4"), "ir_bandwidth": np.array(2.6e-6), "ir_beamwidth": np.array(2.0), "ir_elevation_angle": U(0, 90, n), "ir_azimuth_angle": U(0, 360, n)}
    if case["wind"]:
        d |= {"wind_speed": U(0, 20, n), "wind_direction": U(0, 360, n), "rainfall_rate": U(0, 1e-6, n)}
    if case["gps"] != "none":
        d |= {"latitude": np.full(n, 61.25), "longitude": np.full(n, 24.5)}
        if case["gps"] == "partly" and n > 2:
            d["latitude"] = ma.array(d["latitude"], mask=np.arange(n) == 1)
            d["longitude"] = ma.array(d["longitude"], mask=np.arange(n) == 1)
    return d


@c.sub("level 1c", l1c_case(), quick=150, thorough=3000, shards=4)
def _(case, t):
    r = rng(case["seed"])
    raw = fields(case, r)
    date = {"given": DAY, "text": DAY.isoformat(), "none": None}[case["date"]]
    links = [f"https://x.y/{k}/c{k}.ret" for k in range(int(r.integers(1, 4)))]
    meta = {"name": "Hyytiälä", "latitude": 61.844, "longitude": 24.287, "altitude": 150, "coefficientFiles": ["/one.ret", "/two.ret"], "coefficientLinks": links, "azi_cor": True}
    if case["offset"]:
        meta["time_offset"] = datetime.timedelta(seconds=case["offset"])
    lidar = t.path("lidar.nc") if case["lidar"] else None
    if lidar:
        write_lidar(lidar)
    sig = inspect.signature(lev1.lev1_to_nc)
    calls = []

    def stub(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        calls.append(b.arguments)
        if case["missing"]:
            raise MissingInputData("nothing")
        rpg = Rpg({k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in raw.items()}, b.arguments["date"])
        rpg.data = get_data_attributes(rpg.data, "1C01", "cloudnet")
        return rpg

    flags = raw["quality_flag"]
    share = (flags != 0).mean()
    known = case["times"] == "good" or (case["n"] == 1 and case["times"] in ("equal", "back"))
    refuse = case["missing"] or share > 0.9 or (date is not None and not known)
    if date is None and not known:
        t.label("date not known")
        return
    if abs(share - 0.9) < 1e-9:
        t.label("share on the limit")
        return
    given = dict(meta)
    out = t.path("l1c.nc")
    try:
        with stand_ins([(lev1.lev1_to_nc, stub)]):
            uid = hatpro2l1c(t.dir, out, meta, instrument_type=case["itype"], lidar_file=lidar, uuid=UID if case["uuid"] else None, date=date)
        error = None
    except (HatproDataError, RuntimeError) as e:
        error = e
    t.eq(meta, given, "site metadata of the caller")
    a = calls[0]
    t.eq([a["data_type"], str(a["path_to_files"]), a["instrument_type"], a["coeff_files"], a["date"], a["time_offset"], None if a["lidar_path"] is None else str(a["lidar_path"]), a["instrument_config"]["azi_cor"]], ["1C01", str(t.dir), case["itype"], meta["coefficientFiles"], None if date is None else DAY, meta.get("time_offset"), lidar, True], "arguments of the radiometer package")
    if refuse:
        t.ok(error is not None, "unusable data accepted")
        if case["missing"] or share > 0.9:
            t.ok(isinstance(error, HatproDataError), f"{type(error).__name__} for unusable data")
        t.label("refused")
        return
    if error is not None:
        t.fail(f"usable data refused: {error!r}")
    rpg = Rpg(raw, DAY)
    rpg.data = get_data_attributes(rpg.data, "1C01", "cloudnet")
    with netCDF4.Dataset(out) as nc:
        if case["uuid"]:
            t.eq(str(uid), UID, "identifier")
        check_l1c(t, nc, rpg.data, uid, meta, case["itype"], lidar)
        lat, lon, alt = (float(ma.median(nc[k][:])) for k in ("latitude", "longitude", "altitude"))
        want = (61.844, 24.287) if case["gps"] == "none" else (61.25, 24.5)
        t.ok(abs(lat - want[0]) < 1e-4 and abs(lon - want[1]) < 1e-4 and alt == 150, f"position {lat} {lon} {alt}")
    if case["n"] > 2 and 0 < share:
        t.mark(True, case["itype"])


# ------------------------------------------------------------------ products
class Answer:
    def __init__(self, body, ok=True):
        self.content, self.ok, self.status_code = body, ok, 200 if ok else 404
        self.text = body.decode(errors="replace")

    def raise_for_status(self):
        if not self.ok:
            raise requests.HTTPError("404")


@contextlib.contextmanager
def web(get):
    old = requests.get
    mods = [(m, k) for n, m in list(sys.modules.items()) if n.startswith("cloudnetpy") and m is not None for k, v in list(vars(m).items()) if v is old]
    requests.get = get
    for m, k in mods:
        setattr(m, k, get)
    try:
        yield
    finally:
        requests.get = old
        for m, k in mods:
            setattr(m, k, old)


@st.composite
def product_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"kind": S("single", "multi", "lhumpro"), "n": S(3, 1, 12), "m": S(5, 1), "flags": S("some", "some", "none", "one good", "all", "masked"), "other": S("good", "flagged"), "missing": S(*[False] * 8, True), "links": S(1, 3), "broken": S(*[False] * 8, True), "pid": S(True, True, False), "offset": S("default", "both", "first"), "uuid": S(False, True), "extra": S(False, True), "lwp": S(True, True, False), "seed": draw(st.integers(0, 2**31))}


@c.sub("products", product_case(), quick=150, thorough=3000, shards=4)
def _(case, t):
    r = rng(case["seed"])
    n, m = case["n"], case["m"]
    l1c, out = t.path("l1c.nc"), t.path("l2.nc")
    links = [f"https://x.y/z/{'abc'[k]}{k}.ret" for k in range(case["links"])]
    with netCDF4.Dataset(l1c, "w", format="NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", n)
        nc.createVariable("time", "f8", "time")[:] = np.arange(n)
        nc.setncatts({"year": "2023", "month": "04", "day": "01", "location": "Palaiseau", "source": "RPG-Radiometer Physics HATPRO\nVaisala CL61d", "history": "2023-04-02 01:00:00 +00:00 - mwr-l1c file created\n2023-04-02 00:00:00 +00:00 - lidar file created", "file_uuid": "abcd", "mwrpy_coefficients": ", ".join(links), "title": "L1c", "comment": "not for the product", "cloudnet_file_type": "mwr-l1c"})
        if case["pid"]:
            nc.instrument_pid = "https://hdl.handle.net/21.12132/3.abc"
    real = {"single": lev2.generate_lev2_single, "multi": lev2.generate_lev2_multi, "lhumpro": lev2.generate_lev2_lhumpro}[case["kind"]]
    sig = inspect.signature(real)
    calls = []
    key = "temperature" if case["kind"] == "multi" else "lwp"
    fl = {"some": np.where(r.random(n) < 0.5, 0, 4), "none": np.zeros(n), "one good": np.where(np.arange(n) == n - 1, 0, 2), "all": np.full(n, 8), "masked": ma.masked_all(n)}[case["flags"]]
    fl = ma.array(fl, dtype="i4")
    good = bool(ma.filled(fl == 0, False).any())
    content = {"time": (("time",), np.sort(r.uniform(0, 24, n))), "height": (("height",), 100 + 50 * np.arange(m)), "temperature": (("time", "height"), ma.array(r.uniform(220, 290, (n, m)), mask=r.random((n, m)) < 0.2)), "temperature_quality_flag": (("time",), fl if key == "temperature" else np.full(n, 0 if case["other"] == "good" else 3)),
               "azimuth_angle": (("time",), r.uniform(0, 360, n)), "latitude": (("time",), np.full(n, 48.7)), "longitude": (("time",), np.full(n, 2.2)), "altitude": (("time",), np.full(n, 156.0)), "foo": (("time",), ma.array(r.uniform(-1, 1, n), mask=r.random(n) < 0.3))}
    if case["kind"] != "multi" or case["extra"]:
        content |= {"lwp": (("time",), ma.array(r.uniform(-0.1, 1, n), mask=r.random(n) < 0.2)), "iwv": (("time",), r.uniform(0, 40, n)), "lwp_quality_flag": (("time",), fl if key == "lwp" else np.full(n, 0 if case["other"] == "good" else 3))}
    before = {}

    def stub(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        files = list(b.arguments["coeff_files"])
        calls.append({**b.arguments, "texts": [pathlib.Path(f).read_text() for f in files], "files": [str(f) for f in files]})
        if case["missing"]:
            raise MissingInputData("nothing")
        with netCDF4.Dataset(b.arguments["output_file"], "w", format="NETCDF4_CLASSIC") as nc:
            nc.createDimension("time", n)
            nc.createDimension("height", m)
            for name, (dims, x) in content.items():
                x = ma.array(x)
                v = nc.createVariable(name, "f8" if name == "time" else "i4" if x.dtype.kind == "i" or "flag" in name else "f4", dims, fill_value=-999)
                v.setncatts({"units": "furlong", "long_name": f"mwrpy {name}", "comment": f"about {name}"})
                v[:] = x
            nc.setncatts({"title": "mwrpy", "history": "mwrpy history", "license": "none", "site": "somewhere"})
        with netCDF4.Dataset(b.arguments["output_file"]) as nc:
            for name in nc.variables:
                before[name] = (nc[name][:], nc[name].dimensions, nc[name].dtype, {k: nc[name].getncattr(k) for k in nc[name].ncattrs() if k != "_FillValue"})

    asked = []

    def get(url, *a, **k):
        asked.append(url)
        return Answer(f"coefficients of {url}".encode(), not (case["broken"] and url == links[-1]))

    fun = {"single": generate_mwr_single, "multi": generate_mwr_multi, "lhumpro": generate_mwr_lhumpro}[case["kind"]]
    kw = {} if case["offset"] == "default" or case["kind"] == "multi" else {"lwp_offset": (0.01, -0.02) if case["offset"] == "both" else (0.03, None)}
    had = digest(l1c)
    error = uid = None
    try:
        with stand_ins([(real, stub)]), web(get):
            uid = fun(l1c, out, UID if case["uuid"] else None, **kw)
    except (ValidTimeStampError, requests.RequestException, OSError) as e:
        error = e
    t.eq(digest(l1c), had, "level 1c file")
    if case["broken"]:
        t.ok(error is not None and not isinstance(error, ValidTimeStampError), f"an error page was used as coefficients ({error!r})")
        t.eq(len(calls), 0, "retrievals without coefficients")
        t.label("broken link")
        return
    t.eq(asked, links, "downloaded coefficients")
    t.eq(len(calls), 1, "retrievals")
    a = calls[0]
    t.eq(str(a["mwr_l1c_file"]), l1c, "file of the retrieval")
    t.eq(a["texts"], [f"coefficients of {u}" for u in links], "coefficients of the retrieval")
    t.eq([os.path.basename(f) for f in a["files"]], [os.path.basename(u) for u in links], "names of coefficient files")
    t.ok(not any(os.path.exists(f) for f in a["files"]), "coefficient files are left behind")
    if case["kind"] != "multi":
        t.eq(tuple(a["lwp_offset"]), kw.get("lwp_offset", (None, None)), "offset of the liquid water path")
    if case["missing"] or not good:
        t.ok(isinstance(error, ValidTimeStampError), f"unusable retrieval: {error!r}")
        t.label("refused")
        return
    if error is not None:
        t.fail(f"usable retrieval refused: {error!r}")
    words = "multiple-pointing" if case["kind"] == "multi" else "single-pointing"
    with netCDF4.Dataset(out) as nc:
        t.eq(set(nc.variables), set(before), "variables")
        for name, (x, dims, kind, attrs) in before.items():
            v = nc[name]
            t.eq((v.dimensions, v.dtype), (dims, kind), f"dimensions and type of {name}")
            got = v[:]
            t.ok((ma.getmaskarray(got) == ma.getmaskarray(x)).all() and (ma.filled(got, 0) == ma.filled(x, 0)).all(), f"{name} was changed")
            t.eq(v.comment, attrs["comment"], f"comment of {name}")
            if name in ("foo", "height", "temperature_quality_flag", "lwp_quality_flag"):
                t.eq({k: v.getncattr(k) for k in v.ncattrs() if k != "_FillValue"}, attrs, f"attributes of {name}")
        units = {"lwp": "kg m-2", "iwv": "kg m-2", "temperature": "K", "azimuth_angle": "degree", "latitude": "degree_north", "longitude": "degree_east", "altitude": "m", "time": "hours since 2023-04-01 00:00:00 +00:00"}
        names = {"lwp": "atmosphere_cloud_liquid_water_content", "iwv": "atmosphere_mass_content_of_water_vapor", "latitude": "latitude", "longitude": "longitude", "altitude": "altitude", "time": "time"}
        for name in before:
            if name in units:
                t.eq(nc[name].units, units[name], f"units of {name}")
                t.ok(not nc[name].long_name.startswith("mwrpy"), f"long name of {name}")
            if name in names:
                t.eq(nc[name].standard_name, names[name], f"standard name of {name}")
        for k, v in {"year": "2023", "month": "04", "day": "01", "location": "Palaiseau", "source": "RPG-Radiometer Physics HATPRO\nVaisala CL61d", "title": f"MWR {words} from Palaiseau", "cloudnet_file_type": "mwr-multi" if case["kind"] == "multi" else "mwr-single", "file_uuid": str(uid), "source_file_uuids": "abcd", "mwrpy_version": MWRPY, "Conventions": "CF-1.8"}.items():
            t.eq(getattr(nc, k, None), v, k)
        t.eq(getattr(nc, "instrument_pid", None), "https://hdl.handle.net/21.12132/3.abc" if case["pid"] else None, "instrument PID")
        for k in ("license", "site", "comment"):
            t.ok(not hasattr(nc, k), f"attribute {k} is left")
        t.ok(hasattr(nc, "cloudnetpy_version"), "version")
        h = nc.history.split("\n")
        t.eq(len(h), 3, f"history {nc.history!r}")
        t.ok(words in h[0] and "file created" in h[0], f"history {h[0]}")
        t.eq(h[1:], ["2023-04-02 01:00:00 +00:00 - mwr-l1c file created", "2023-04-02 00:00:00 +00:00 - lidar file created"], "history of the sources")
    if case["uuid"]:
        t.eq(str(uid), UID, "identifier")
    if n > 2 and case["flags"] in ("some", "one good"):
        t.mark(True, case["kind"])


# ------------------------------------------------------------------ the whole chain with the radiometer package
@st.composite
def chain_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"n": S(12, 4, 30), "irt": S(True, False), "bad": S(0.0, 0.2, 0.6), "order": S("one", "two", "shuffled"), "foreign": S(False, True), "dup": S(False, True), "rain": S(0.0, 0.2), "date": S("given", "text"), "seed": draw(st.integers(0, 2**31))}


def angle(e, a):
    return int(round(e * 100)) * 100000 + int(round(a * 100))


def write_brt(path, time, tb, ele, azi, rain):
    with open(path, "wb") as f:
        f.write(struct.pack("<iiii", 666000, len(time), 1, 14) + np.array(F14 + [2] * 14 + [320] * 14, "<f4").tobytes())
        for i in range(len(time)):
            f.write(struct.pack("<ib", int(time[i]), int(rain[i])) + tb[i].astype("<f4").tobytes() + struct.pack("<i", angle(ele[i], azi[i])))


def write_hkd(path, time, status):
    with open(path, "wb") as f:
        f.write(struct.pack("<iiii", 837854832, len(time), 1, 0x3F))
        for i in range(len(time)):
            f.write(struct.pack("<ib", int(time[i]), 0))
            f.write(np.array([24.25, 61.75, 300, 300, 310, 310, 0.01, 0.01], "<f4").tobytes() + struct.pack("<iii", 1000, 0, int(status[i])))


def write_met(path, time, p, temp, rh):
    with open(path, "wb") as f:
        f.write(struct.pack("<ii", 599658943, len(time)) + np.zeros(6, "<f4").tobytes() + struct.pack("<i", 1))
        for i in range(len(time)):
            f.write(struct.pack("<ib", int(time[i]), 0) + np.array([p, temp, rh], "<f4").tobytes())


def write_irt(path, time, irt):
    with open(path, "wb") as f:
        f.write(struct.pack("<iiffii", 671112000, len(time), -100, 50, 1, 2) + np.array([11.1, 12.0], "<f4").tobytes())
        for i in range(len(time)):
            f.write(struct.pack("<ib", int(time[i]), 0) + np.array(irt[i], "<f4").tobytes() + struct.pack("<i", angle(90.0, 0.0)))


@c.sub("chain", chain_case(), quick=7, thorough=150, shards=8)
def _(case, t):
    if not COEFFICIENTS:
        t.label("no coefficients")
        return
    r = rng(case["seed"])
    n = case["n"]
    base = int((datetime.datetime(2023, 4, 1) - datetime.datetime(2001, 1, 1)).total_seconds())
    time = base + int(r.integers(0, 70000)) + 60 * np.arange(n)
    if case["foreign"]:
        time[0] -= 86400
    tb = TB + r.normal(0, 0.2, (n, 14))
    ele, azi = np.full(n, 90.0), np.round(r.uniform(0, 359, n), 1)
    rain = (r.random(n) < case["rain"]).astype(int)
    ok = 0x7FFF | 1 << 22 | 1 << 23 | 1 << 24 | 1 << 26
    status = np.where(r.random(n) < case["bad"], ok & ~0x7F, ok)
    d = os.path.join(str(t.dir), "raw")
    os.mkdir(d)
    order = r.permutation(n) if case["order"] == "shuffled" else np.arange(n)
    if case["dup"]:
        order = np.append(order, order[-1])
    k = n // 2 if case["order"] == "two" else len(order)
    for i, part in enumerate((order[:k], order[k:])):
        if len(part):
            write_brt(f"{d}/2304010{i}.BRT", time[part], tb[part], ele[part], azi[part], rain[part])
    write_hkd(f"{d}/230401.HKD", time, status)
    write_met(f"{d}/230401.MET", time, 990, 280, 70)
    if case["irt"]:
        write_irt(f"{d}/230401.IRT", time, r.uniform(-60, 5, (n, 2)))
    raws = {f: digest(f"{d}/{f}") for f in os.listdir(d)}
    links = [f"https://x.y/{os.path.basename(f)}" for f in COEFFICIENTS]
    meta = {"name": "Hyytiälä", "latitude": 61.844, "longitude": 24.287, "altitude": 150, "coefficientFiles": COEFFICIENTS, "coefficientLinks": links}
    ref = lev1.lev1_to_nc("1C01", d, instrument_type="hatpro", coeff_files=COEFFICIENTS, instrument_config=dict(meta), date=DAY)
    share = float(np.mean(np.asarray(ref.data["quality_flag"].data) != 0))
    l1c = t.path("l1c.nc")
    try:
        uid = hatpro2l1c(d, l1c, meta, date=DAY if case["date"] == "given" else DAY.isoformat())
    except HatproDataError:
        t.ok(share > 0.9, "usable data refused")
        t.label("refused")
        return
    t.ok(share <= 0.9, "unusable data accepted")
    use = time >= base
    with netCDF4.Dataset(l1c) as nc:
        check_l1c(t, nc, ref.data, uid, meta, "hatpro", None)
        t.same(np.asarray(nc["time"][:]), (time[use] - base) / 3600, rtol=0, atol=1e-8, what="time")
        same_field(t, "tb", nc["tb"][:], tb[use].astype("f4"))
        same_field(t, "azimuth_angle", nc["azimuth_angle"][:], azi[use])
    t.eq({f: digest(f"{d}/{f}") for f in os.listdir(d)}, raws, "raw files")

    def get(url, *a, **kw):
        return Answer(next(pathlib.Path(f).read_bytes() for f in COEFFICIENTS if os.path.basename(f) == url.split("/")[-1]))

    had = digest(l1c)
    out, own = t.path("l2.nc"), t.path("own.nc")
    try:
        sig = inspect.signature(lev2.generate_lev2_single)
        args = {"mwr_l1c_file": l1c, "output_file": own, "coeff_files": COEFFICIENTS}
        lev2.generate_lev2_single(**({"site": None} if "site" in sig.parameters else {}), **args)
    except MissingInputData:
        args = None
    with netCDF4.Dataset(own) if args else contextlib.nullcontext() as nc:
        good = bool(args) and bool(ma.filled(nc["lwp_quality_flag"][:] == 0, False).any())
    try:
        with web(get):
            uid = generate_mwr_single(l1c, out)
    except ValidTimeStampError:
        t.ok(not good, "usable retrieval refused")
        t.label("no product")
        return
    t.ok(good, "unusable retrieval accepted")
    t.eq(digest(l1c), had, "level 1c file")
    with netCDF4.Dataset(out) as nc, netCDF4.Dataset(own) as ref:
        t.eq(set(nc.variables), set(ref.variables), "variables of the product")
        for k in ref.variables:
            a, b = nc[k][:], ref[k][:]
            t.ok(a.shape == b.shape and (ma.getmaskarray(a) == ma.getmaskarray(b)).all() and np.array_equal(ma.filled(a, 0), ma.filled(b, 0), equal_nan=True), f"{k} of the product")
        t.eq((nc.cloudnet_file_type, nc.title, nc.file_uuid), ("mwr-single", "MWR single-pointing from Hyytiälä", str(uid)), "attributes of the product")
    t.mark()
    t.label("foreign day", case["foreign"])


c.main()
