import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime
import re
import uuid as uuidlib

import netCDF4
from hypothesis import strategies as st

from cloudnetpy import output
from cloudnetpy.categorize.categorize import CATEGORIZE_ATTRIBUTES
from cloudnetpy.categorize.containers import Observations
from cloudnetpy.datasource import DataSource

c = Check(
    "P06",
    "Cases are directed acyclic chains of files: sources with generated identifiers (present, shared, missing), multi-line histories (with "
    "equal times and malformed lines), sources and PIDs, from which products are derived and derived again.  The oracle is set/ordering "
    "bookkeeping over the generated lines.  Non-trivial: a derived file has two or more sources with overlapping history or identifiers.",
    ["history lines carry UTC times in the format the library writes"],
)
TS = r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \+00:00"


@st.composite
def line(draw):
    y = draw(st.integers(2015, 2022))
    txt = draw(st.sampled_from(["radar file created", "lidar file created", "model file created", "updated - again", "mwr file created", "cf"]))
    tz = draw(st.sampled_from(["+00:00", "+00:00", "+00:00", "+02:00"]))
    if draw(st.integers(0, 9)) == 0:
        return draw(st.sampled_from(["malformed line", "2020-13-45 - odd", "created by hand"]))
    return f"{y}-{draw(st.integers(1, 12)):02d}-{draw(st.integers(1, 28)):02d} {draw(st.integers(0, 23)):02d}:{draw(st.sampled_from([0, 30])):02d}:00 {tz} - {txt}"


@st.composite
def source(draw):
    return {
        "uuid": draw(st.sampled_from([None, 1, 2, 3, 4, 5, 6, 7, 8])),
        "history": draw(st.one_of(st.none(), st.lists(line(), min_size=1, max_size=4))),
        "source": draw(st.lists(st.sampled_from(["METEK MIRA-35", "RPG HATPRO", "Lufft CHM 15k", "Vaisala CL61", "ECMWF"]), min_size=1, max_size=2, unique=True)),
        "pid": draw(st.sampled_from([None, "https://hdl/1", "https://hdl/2"])),
        "type": draw(st.sampled_from(["radar", "lidar", "mwr", "model", None])),
    }


def fake_uuid(i):
    return str(uuidlib.UUID(int=(i * 7919) << 90 | i))


def make(path, s):
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", 2)
        nc.createDimension("height", 2)
        nc.createVariable("time", "f8", ("time",))[:] = [1.0, 2.0]
        nc["time"].units = "hours since 2020-01-01 00:00:00 +00:00"
        v = nc.createVariable("height", "f4", ("height",)); v[:] = [100.0, 200.0]; v.units = "m"
        v = nc.createVariable("altitude", "f4"); v[:] = 10.0; v.units = "m"
        nc.year, nc.month, nc.day, nc.location = "2020", "01", "01", "Site"
        if s["uuid"] is not None:
            nc.file_uuid = fake_uuid(s["uuid"])
        if s["history"] is not None:
            nc.history = "\n".join(s["history"])
        nc.source = "\n".join(s["source"])
        if s["pid"]:
            nc.instrument_pid = s["pid"]
        if s["type"]:
            nc.cloudnet_file_type = s["type"]


def key(ln):
    try:
        return datetime.datetime.strptime(ln.split(" - ", 1)[0].strip(), "%Y-%m-%d %H:%M:%S %z")
    except ValueError:
        return datetime.datetime.min.replace(tzinfo=datetime.timezone.utc)


def lines_of(s):
    if not s["history"]:
        return []
    return [s["history"][-1]] if s["type"] == "model" else list(s["history"])


def check_history(t, got, srcs, what):
    lines = got.split("\n")
    t.ok(re.match(TS + " - .*" + what + " file created$", lines[0]), f"first history entry {lines[0]!r}")
    rest = lines[1:]
    exp = set()
    for s in srcs:
        exp |= set(lines_of(s))
    t.eq(sorted(rest), sorted(exp), "history entries of the sources")
    keys = [key(x) for x in rest]
    t.ok(keys == sorted(keys, reverse=True), "history entries are newest first")


READABLE = {"lwc": "liquid water content", "iwc": "ice water content", "der": "droplet effective radius", "ier": "ice effective radius", "drizzle": "drizzle", "classification": "classification"}


@c.sub("chain", st.tuples(st.lists(source(), min_size=1, max_size=4), st.lists(st.tuples(st.sampled_from(sorted(READABLE)), st.lists(st.integers(0, 9), min_size=1, max_size=3, unique=True)), min_size=1, max_size=4)), quick=120, shards=4)
def _(case, t):
    srcs, ops = case
    files = []
    for i, s in enumerate(srcs):
        p = t.path(f"s{i}.nc")
        make(p, s)
        files.append((p, dict(s)))
    for k, (short, idx) in enumerate(ops):
        use = list(dict.fromkeys(files[i % len(files)][0] for i in idx))
        meta = {p: s for p, s in files}
        main, extra = use[0], use[1:]
        out = t.path(f"d{k}.nc")
        uid = uuidlib.UUID(int=1000 + k)
        objs = [DataSource(p) for p in extra]
        with DataSource(main) as ds:
            output.save_product_file(short, ds, out, uid, extra_sources=tuple(objs))
        for o in objs:
            o.close()
        with netCDF4.Dataset(out) as nc:
            exp = sorted({fake_uuid(meta[p]["uuid"]) if meta[p]["uuid"] is not None and "real" not in meta[p] else meta[p].get("real") for p in use} - {None})
            got = nc.source_file_uuids
            t.eq(got, ", ".join(exp), "source identifiers")
            check_history(t, nc.history, [meta[p] for p in use], READABLE[short])
            t.eq(nc.file_uuid, str(uid), "own identifier")
            t.eq(nc.cloudnet_file_type, short, "file type")
            s_exp = list(meta[main]["source"])
            for p in extra:
                joined = "\n".join(meta[p]["source"])
                if joined not in s_exp:
                    s_exp.append(joined)
            t.eq(set(nc.source.split("\n")), {x for y in s_exp for x in y.split("\n")}, "source descriptions")
            t.eq(getattr(nc, "instrument_pid", None), meta[main]["pid"], "instrument PID")
            new = {"uuid": 0, "real": str(uid), "history": nc.history.split("\n"), "source": nc.source.split("\n"), "pid": meta[main]["pid"], "type": short}
        files.append((out, new))
        if len(use) > 1:
            h = [x for p in use for x in lines_of(meta[p])]
            t.mark(len(h) != len(set(h)) or len({meta[p]["uuid"] for p in use}) < len(use) or k > 0, "overlap")


@c.sub("observations", st.tuples(st.fixed_dictionaries({"radar": source(), "lidar": source(), "model": source(), "mwr": st.one_of(st.none(), source()), "disdrometer": st.one_of(st.none(), source())})), quick=150, shards=3)
def _(case, t):
    (d,) = case
    objs = {}
    for k, s in d.items():
        if s is None:
            continue
        s = dict(s, type=k)
        d[k] = s
        p = t.path(f"{k}.nc")
        make(p, s)
        objs[k] = DataSource(p)
    try:
        obs = Observations(**objs)
        present = [s for s in d.values() if s]
        exp = sorted({fake_uuid(s["uuid"]) for s in present if s["uuid"] is not None})
        t.eq(output.get_source_uuids(obs), ", ".join(exp), "source identifiers")
        t.eq(output.get_source_uuids(list(objs.values())), ", ".join(exp), "source identifiers of a list")
        with netCDF4.Dataset(t.path("out.nc"), "w", format="NETCDF4_CLASSIC") as nc:
            output.merge_history(nc, "categorize", obs)
            output.add_source_instruments(nc, obs)
            check_history(t, nc.history, present, "categorize")
            t.eq(nc.source, "\n".join(sorted({x for s in present for x in s["source"]})), "source")
            pids = sorted({s["pid"] for s in present if s["pid"]})
            t.eq(getattr(nc, "source_instrument_pids", ""), "\n".join(pids), "source PIDs")
        attrs = output.add_source_attribute(dict(CATEGORIZE_ATTRIBUTES), obs)
        for inst, var in (("radar", "Z"), ("radar", "v"), ("lidar", "beta"), ("mwr", "lwp"), ("disdrometer", "rainfall_rate"), ("model", "temperature")):
            if d.get(inst):
                t.eq(attrs[var].source, "\n".join(d[inst]["source"]), f"source of {var}")
                t.eq(attrs[var].source_instrument_pid, d[inst]["pid"], f"source PID of {var}")
        if not d.get("disdrometer"):
            t.eq(attrs["rainfall_rate"].source, "\n".join(d["radar"]["source"]), "source of rainfall_rate")
        t.mark(len(exp) < len(present) or len(pids) > 1)
    finally:
        for o in objs.values():
            o.close()


c.main()
