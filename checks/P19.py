import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime
import struct

import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy.exceptions import ValidTimeStampError
from cloudnetpy.instruments import hatpro2nc, radiometrics2nc
from gen import times

c = Check(
    "P19",
    "HATPRO cases are directories of generated binary LWP/IWV files (both format versions, stem-paired or not, unsorted/repeated/other-day timestamps, quality flags, angles, "
    "truncated, foreign and unreadable files); Radiometrics cases are generated level-2 csv files (both record families) and .los files.  The oracle is the generated record set. "
    "Non-trivial: at least two distinct times on the date and a repeated, unsorted, other-day, low-quality, missing or broken element.",
    ["among records with the same timestamp any one may be kept", "files of one stem share the format version", "HATPRO samples at exactly 00:00:00 are not generated (a last sample at midnight counts as 24:00 by design)"],
)
DATE = datetime.date(2021, 1, 23)
SITE = {"name": "Hyytiälä", "altitude": 174, "latitude": 61.84, "longitude": 24.28}
EPOCH = datetime.date(2001, 1, 1)
T0 = (DATE - EPOCH).days * 86400
CODES = {("LWP", 1): 934501978, ("LWP", 2): 934501000, ("IWV", 1): 594811068, ("IWV", 2): 594811000}


@st.composite
def hatpro_dir(draw):
    nstem = draw(st.integers(1, 3))
    stems = []
    for i in range(nstem):
        kinds = draw(st.sampled_from([["LWP"], ["LWP", "IWV"], ["LWP", "IWV"], ["LWP", "IWV"], ["IWV"]]))
        s = {"ver": draw(st.sampled_from([1, 2])), "seed": draw(st.integers(0, 2**31)), "files": []}
        base = draw(times(steps=(1, 60, 1800)))
        for k in kinds:
            same = draw(st.booleans())
            s["files"].append({"kind": k, "t": base if same else draw(times(steps=(1, 60, 1800))),
                               "q": draw(st.sampled_from(["good", "some", "some", "all"] if draw(st.booleans()) else ["good", "some"])),
                               "zero": draw(st.sampled_from([0, 0, 0, 0, 1])), "cut": draw(st.sampled_from([None, None, None, 1, 4, 400])),
                               "tref": draw(st.sampled_from([1, 1, 1, 1, 1, 0])), "ext": draw(st.sampled_from(["upper", "upper", "lower"])),
                               "ang": draw(st.sampled_from(["same", "same", "same", "same", "other"]))})
        stems.append(s)
    return {"stems": stems, "junk": draw(st.lists(st.sampled_from(["code", "empty", "header", "other", "text"]), max_size=2)),
            "how": draw(st.sampled_from(["date", "date", "str", "none"]))}


def encode_angle(ele, azi, ver):
    if ver == 1:
        sgn = -1 if ele < 0 else 1
        if ele >= 100:
            return float(1e6 + (ele - 100) + 1000 * azi)
        return float(sgn * (abs(ele) + 1000 * azi))
    sgn = -1 if ele < 0 else 1
    return sgn * (round(abs(ele) * 100) * 100000 + round(azi * 100))


def make_file(path, f, ver, ang_seed, r, code=None):
    """Writes the file; returns the complete records that it holds."""
    recs = []
    n = len(f["t"])
    byt = {}
    for i, s in enumerate(f["t"]):
        ra = rng((ang_seed + s) % 2**31 + (7 if f["ang"] == "other" else 0))
        ele = float(ra.choice([90.0, 90.0, 30.0, 42.5, 19.2, 138.5, -10.0] if ver == 1 else [90.0, 90.0, 30.0, 42.55, 19.2, 138.5, -10.0]))
        if f["ang"] == "other":
            ele -= 1.5
        azi = float(ra.choice([0.0, 267.4, 12.3]))
        if s in byt:
            q = byt[s]
        else:
            lvl = {"good": int(r.choice([0, 1, 2])), "some": int(r.choice([0, 1, 2, 3])), "all": 3}[f["q"]]
            q = int(r.integers(0, 2)) | lvl << 1 | int(r.integers(0, 16)) << 3
            byt[s] = q
        val = 0.0 if f["zero"] else float(np.float32(r.choice([r.uniform(-50, 800), r.uniform(1, 40)])))
        recs.append({"t": s, "q": q, "val": val, "ele": ele, "azi": azi})
    head = struct.pack("<iiffii", code if code is not None else CODES[f["kind"], ver], n, 0.0, 500.0, f["tref"], 1)
    body = b"".join(struct.pack("<ibff" if ver == 1 else "<ibfi", T0 + x["t"], x["q"] if x["q"] < 128 else x["q"] - 256, x["val"], encode_angle(x["ele"], x["azi"], ver)) for x in recs)
    if f["cut"] and n > 1:
        body = body[: max(13 * 1, len(body) - f["cut"])]
    with open(path, "wb") as fh:
        fh.write(head + body)
    return recs[: len(body) // 13]


@c.sub("hatpro", hatpro_dir(), quick=300, shards=2)
def _(case, t):
    d = t.path("in")
    os.mkdir(d)
    r = rng(case["stems"][0]["seed"])
    combined = []  # per used stem: {kind: {time: [records]}}
    used = set()
    special = False
    for i, s in enumerate(case["stems"]):
        ok = {}
        names = {}
        for f in s["files"]:
            if case["how"] == "none":
                f = {**f, "t": [x % 86400 for x in f["t"]]}
            f = {**f, "t": [x if x % 86400 else x + 7 for x in f["t"]]}  # a last sample at midnight counts as 24:00
            ext = f["kind"].lower() if f["ext"] == "lower" else f["kind"]
            name = f"2101{i:02d}.{ext}"
            recs = make_file(os.path.join(d, name), f, s["ver"], s["seed"], r)
            low = [x["q"] & 6 == 6 for x in recs]
            if not f["zero"] and all(low):
                special = True
                continue  # only low-quality data
            if case["how"] != "none":
                if f["tref"] != 1:
                    special = True
                    continue  # the date of local times cannot be checked
                good = [x for x in recs if 0 <= x["t"] < 86400]
            else:
                good = recs
            if not good:
                continue
            by = {}
            for x in good:
                by.setdefault(x["t"], []).append({"val": None if f["zero"] or x["q"] & 6 == 6 else x["val"] * (1e-3 if f["kind"] == "LWP" else 1), "zen": 90 - x["ele"]})
            ok[f["kind"]] = by
            names[f["kind"]] = name
        if not ok:
            continue
        if len(ok) == 2:
            zl, zi = ({k: v[0]["zen"] for k, v in ok[q].items()} for q in ("LWP", "IWV"))
            if any(abs(zl[k] - zi[k]) > 1e-6 for k in zl if k in zi):
                special = True
                continue  # contradicting angles: both files are ignored
            if any(len({round(y["zen"], 3) for y in v}) > 1 for q in ok.values() for v in q.values()):
                return
        combined.append(ok)
        used |= set(names.values())
    for j, kind in enumerate(case["junk"]):
        special = True
        f = {"kind": "LWP", "t": [3600, 3601], "q": "good", "zero": 0, "cut": None, "tref": 1, "ang": "same"}
        if kind == "code":
            make_file(os.path.join(d, f"junk{j}.LWP"), f, 2, 1, r, code=12345)
        elif kind == "empty":
            open(os.path.join(d, f"junk{j}.LWP"), "wb").close()
        elif kind == "header":
            open(os.path.join(d, f"junk{j}.IWV"), "wb").write(b"\x01\x02\x03\x04\x05")
        elif kind == "other":
            make_file(os.path.join(d, f"junk{j}.BRT"), f, 2, 1, r)
        else:
            open(os.path.join(d, f"junk{j}.txt"), "w").write("hello")
    out = t.path("o.nc")
    arg = {"date": DATE, "str": DATE.isoformat(), "none": None}[case["how"]]
    has_lwp = any("LWP" in x for x in combined)
    try:
        uuid, files = hatpro2nc(d, out, SITE, date=arg)
    except ValidTimeStampError:
        t.ok(not has_lwp, "ValidTimeStampError although there is a valid LWP file")
        t.ok(not os.path.exists(out), "file written in spite of the exception")
        return t.label("no data")
    t.ok(has_lwp, "no exception although no valid LWP file is left")
    t.eq({x.name for x in files}, used, "files reported as used")
    has_iwv = any("IWV" in x for x in combined)
    ut = sorted({k for x in combined for q in x.values() for k in q})
    with netCDF4.Dataset(out) as nc:
        t.eq(nc.file_uuid, str(uuid), "uuid")
        t.eq((nc.year, nc.month, nc.day), (f"{DATE.year}", f"{DATE.month:02d}", f"{DATE.day:02d}"), "date")
        t.same(t.var(nc, "time")[:], np.array(ut) / 3600, "time", rtol=0, atol=1e-6)
        t.eq("iwv" in nc.variables, has_iwv, "presence of iwv")
        lwp = t.var(nc, "lwp")[:]
        iwv = nc["iwv"][:] if has_iwv else None
        zen = t.var(nc, "zenith_angle")[:]
        t.eq(lwp.shape, (len(ut),), "shape of lwp")
        for i, s in enumerate(ut):
            cand = []
            for x in combined:
                L, W = x.get("LWP", {}).get(s), x.get("IWV", {}).get(s)
                if L is None and W is None:
                    continue
                none = [{"val": None, "zen": None}]
                for a in L or none:
                    for b in W or none:
                        cand.append((a["val"], b["val"], a["zen"] if a["zen"] is not None else b["zen"]))
            def near(g, e, tol):
                m = g is ma.masked
                return m if e is None else (not m and abs(float(g) - e) <= tol + 1e-5 * abs(e))
            hit = [q for q in cand if near(lwp[i], q[0], 1e-7) and (not has_iwv or near(iwv[i], q[1], 1e-5)) and near(zen[i], q[2], 0.05)]
            t.ok(hit, lambda: f"sample at {s} s is (lwp {lwp[i]}, iwv {iwv[i] if has_iwv else None}, zenith {zen[i]}); the records of that time are {cand}")
    allt = [x for s in case["stems"] for f in s["files"] for x in f["t"]]
    t.mark(len(ut) > 1 and (special or len(allt) != len(ut) or allt != sorted(allt)))
    t.label("several stems", len(combined) > 1)
    t.label("paired", any(len(x) == 2 for x in combined))


# ------------------------------------------------------------------ Radiometrics
GOOD = ["0.00:90.00", "Zenith", "Zenith16", "Zenith18"]
BADP = ["Zenith26", "Angle Scan18(N)", "Angle20(S)", "ZenithOZN"]


@st.composite
def mp_case(draw, kind):
    n = draw(st.integers(1, 6))
    nf = draw(st.integers(1, 2))
    files = []
    for _ in range(nf):
        obs = []
        for _ in range(draw(st.integers(1, n))):
            obs.append({"procs": draw(st.lists(st.sampled_from(GOOD + BADP), min_size=1, max_size=3)), "order": draw(st.sampled_from(["before", "after", "mixed"]))})
        files.append(obs)
    return {"kind": kind, "files": files, "seed": draw(st.integers(0, 2**31)), "step": draw(st.sampled_from([60, 301, 3600])),
            "base": draw(st.sampled_from([-4000, 0, 5000, 80000])), "how": draw(st.sampled_from(["date", "str", "none"])), "y4": draw(st.booleans()),
            "shuffle": draw(st.booleans()), "nz": draw(st.integers(1, 6)), "one": draw(st.booleans()), "noise": draw(st.booleans())}


def stamp(s, y4):
    x = datetime.datetime.combine(DATE, datetime.time()) + datetime.timedelta(seconds=s)
    return x.strftime("%m/%d/%Y %H:%M:%S" if y4 else "%m/%d/%y %H:%M:%S")


def mp_files(case, t, r):
    """Writes the files; returns expected samples [(time, lwp, iwv)], profiles {name: [(time, values)]}, irt [(time, value)] and heights in km."""
    km = [f"{0.05 * i + 0.1 * (i > 2) * i:.2f}" for i in range(case["nz"])]
    hdr = ",".join(" " + x for x in km)
    S, prof, irt = [], {"temperature": [], "absolute_humidity": [], "relative_humidity": []}, []
    paths = []
    now = case["base"]
    order = list(range(len(case["files"])))
    if case["shuffle"]:
        order = list(r.permutation(len(order)))
    starts = {}
    for i in range(len(case["files"])):
        starts[i] = now
        now += case["step"] * (len(case["files"][i]) + 1)
    for i in order:
        rows = []  # text without the row number
        head = []
        now = starts[i]
        vals = lambda lo, hi: [f"{r.uniform(lo, hi):.3f}" for _ in km]  # noqa: E731
        if case["kind"] == "10":
            head.append(f"Record,Date/Time,10,Tamb(K),Rh(%),Pres(mb),Tir(K),Rain,Vint(cm),Lqint(mm),Cldb,{hdr}")
            if case["noise"]:
                head.append("Record,Date/Time,30,GPS Date/Time,Latitude")
            for _ in case["files"][i]:
                v, lq, ir = f"{r.uniform(0, 5):.2f}", f"{r.choice([0, r.uniform(0, 2)]):.3f}", f"{r.uniform(200, 280):.1f}"
                pro = [vals(220, 300), vals(0, 20), vals(0, 100), vals(0, 1)]
                for k in range(4):
                    rows.append((now, f"{11 + k},297.0, 63.5, 999.6,{ir},N, {v}, {lq}, 1.0," + ", ".join(pro[k])))
                S.append((now, float(lq), float(v) * 10))
                irt.append((now, float(ir)))
                for name, q, f in zip(("temperature", "absolute_humidity", "relative_humidity"), pro, (1, 1e-3, 1e-2)):
                    prof[name].append((now, [float(x) * f for x in q]))
                if case["noise"]:
                    rows.append((now, "31,10/06/2021 00:04:13,5212.5331"))
                    rows.append((now, "99,Running procedure file: x.prc"))
                now += case["step"]
        else:
            head += ["Record,Date/Time,30,GPS Date/Time,Latitude", "Record,Date/Time,100,Record Type,Title", "Record,Date/Time,200,Tamb(K),Rh(%),Pres(mb),Tir(K),Rain",
                     "Record,Date/Time,300,Int. Vapor(cm),Int. Liquid(mm),Cloud Base(km)", f"Record,Date/Time,400,LV2 Processor,{hdr}"]
            titles = [("401", "Temperature (K)"), ("402", "Vapor Density (g/m^3)"), ("403", "Liquid (g/m^3)"), ("404", "Relative Humidity (%)")]
            for a, b in titles:
                rows.append((now, f"101,{a},{b}"))
            for ob in case["files"][i]:
                ir = f"{r.uniform(200, 280):.4f}"
                rows.append((now, f"201, 278.7780,  92.4200,1004.2000, {ir},0"))
                irt.append((now, float(ir)))
                sec = now + 5
                n301, n40x = [], []
                for p in ob["procs"]:
                    v, lq = f"{r.uniform(0, 5):.3f}", f"{r.choice([0, r.uniform(0, 2)]):.3f}"
                    pro = [vals(220, 300), vals(0, 20), vals(0, 1), vals(0, 100)]
                    grp = [(sec, f"{401 + k},{p}," + ",".join(pro[k])) for k in range(4)]
                    i3 = (sec, f"301,  {v},  {lq}, -1.000,")
                    n301.append(i3)
                    n40x.append(grp)
                    if p in GOOD:
                        S.append((sec, float(lq), float(v) * 10))
                        for name, q, f in zip(("temperature", "absolute_humidity", "relative_humidity"), (pro[0], pro[1], pro[3]), (1, 1e-3, 1e-2)):
                            prof[name].append((sec, [float(x) * f for x in q]))
                    sec += 2
                if ob["order"] == "before":
                    rows += n301 + [x for g in n40x for x in g]
                elif ob["order"] == "after":
                    rows += [x for g in n40x for x in g] + n301
                else:
                    for a, g in zip(n301, n40x):
                        rows += [*g, a]
                if case["noise"]:
                    rows.append((sec, "31,10/06/2021 00:04:13,5212.5331"))
                    rows.append((sec, "99,Running procedure file: x.prc"))
                now += case["step"]
        lines = [f"{k + 1:6d},{stamp(s, case['y4'])},{x}" for k, (s, x) in enumerate(rows)]
        if case["shuffle"]:
            lines = [lines[k] for k in r.permutation(len(lines))]
        p = os.path.join(t.path("in"), f"f{i}_lv2.csv")
        with open(p, "w") as fh:
            fh.write("\n".join(head + lines) + "\n")
        paths.append(p)
    return S, prof, irt, [float(x) for x in km], paths


def mp_check(case, t):
    r = rng(case["seed"])
    if case["one"]:
        case = {**case, "files": case["files"][:1]}
    if case["how"] == "none":
        case = {**case, "base": 5000}
    os.mkdir(t.path("in"))
    S, prof, irt, km, paths = mp_files(case, t, r)
    arg = {"date": DATE, "str": DATE.isoformat(), "none": None}[case["how"]]
    good = sorted((x for x in S if 0 <= x[0] < 86400), key=lambda x: x[0]) if case["how"] != "none" else sorted(S)
    if case["how"] == "none" and any(x[0] >= 86400 for x in S):
        return
    out = t.path("o.nc")
    try:
        uuid = radiometrics2nc(paths[0] if len(paths) == 1 and case["y4"] else t.path("in"), out, SITE, None, arg)
    except ValidTimeStampError:
        t.ok(not good, "ValidTimeStampError although the date has records")
        t.ok(not os.path.exists(out), "file written in spite of the exception")
        return t.label("no data")
    t.ok(good, "no exception although no record is from the date")
    with netCDF4.Dataset(out) as nc:
        t.eq(nc.file_uuid, str(uuid), "uuid")
        t.eq((nc.year, nc.month, nc.day), (f"{DATE.year}", f"{DATE.month:02d}", f"{DATE.day:02d}"), "date")
        tt = np.array([x[0] for x in good])
        t.same(t.var(nc, "time")[:], tt / 3600, "time", rtol=0, atol=3e-6)
        t.same(t.var(nc, "lwp")[:], np.array([x[1] for x in good]), "lwp", atol=1e-6)
        t.same(t.var(nc, "iwv")[:], np.array([x[2] for x in good]), "iwv", atol=1e-5)
        t.same(t.var(nc, "range")[:], np.array(km) * 1000, "range")
        t.same(t.var(nc, "height")[:], np.array(km) * 1000 + SITE["altitude"], "height")
        for name, items in [*prof.items(), ("irt", [(a, [b]) for a, b in irt])]:
            if not items:
                continue
            g = t.var(nc, name)[:]
            # the sample of the same file that is closest in time; files are combined before screening
            for i, s in enumerate(tt):
                dist = [abs(a - s) for a, _ in items]
                best = min(dist)
                t.ok(any(dd == best and np.allclose(ma.filled(g[i], np.nan), v, rtol=1e-5, atol=1e-7) for dd, (a, v) in zip(dist, items)),
                     lambda: f"{name} at {s} s is {g[i]}, expected that of the closest record {[v for dd, (a, v) in zip(dist, items) if dd == best]}")
        for k, v in (("latitude", 61.84), ("longitude", 24.28), ("altitude", 174)):
            t.ok(np.allclose(t.var(nc, k)[:], v), f"{k}")
    t.mark(len(good) > 1 and (len(S) != len(good) or case["shuffle"] or len(case["files"]) > 1 or case["noise"]))


c.sub("radiometrics_10", mp_case("10"), quick=150)(mp_check)
c.sub("radiometrics_400", mp_case("400"), quick=200)(mp_check)


@st.composite
def los_case(draw):
    return {"t": draw(times(steps=(60, 1800), kinds=("sorted", "shuffled", "far"))), "off": draw(st.sampled_from([0, 0, 0, 40000, 86400])), "seed": draw(st.integers(0, 2**31)),
            "how": draw(st.sampled_from(["date", "str", "none"])), "bad": draw(st.lists(st.integers(0, 20), max_size=2)), "split": draw(st.integers(0, 20)), "elev": draw(st.sampled_from(["zenith", "mixed", "mixed", "slant"]))}


@c.sub("radiometrics_los", los_case(), quick=150)
def _(case, t):
    r = rng(case["seed"])
    if case["how"] == "none":
        case = {**case, "off": 0}
    T = [x + case["off"] for x in case["t"]]
    rows, exp = [], []
    for s in T:
        ele = {"zenith": 90.0, "slant": 45.0}.get(case["elev"]) or float(r.choice([90.0, 90.4, 89.1, 59.9, 120.2, 91.5, 88.5]))
        b23, b31 = f"{r.choice([r.uniform(10, 80), r.uniform(10, 80), -9.99, 0]):.2f}", f"{r.choice([r.uniform(10, 80), r.uniform(10, 80), -9.99]):.2f}"
        v, q = f"{r.uniform(0, 6):.3f}", f"{r.uniform(-0.01, 0.2):.4f}".replace("0.", ".")
        star = r.random() < 0.1
        rows.append(f"{stamp(s, False)}   {b23}   {b31}  296.99    {'******' if star else v}    {q}   20.41     .0   {ele}  .2218  .1319 233.1 ****** 1024.0 -.01")
        if abs(ele - 90) < 1 and float(b23) > 0 and float(b31) > 0:
            exp.append((s, float(q) * 10, None if star else float(v) * 10))
    good = sorted((x for x in exp if case["how"] == "none" or 0 <= x[0] < 86400), key=lambda x: x[0])
    head = [" RETRIEVAL COEFFICIENTS:", "Vapor  c0 =    .005 c1 =  21.647 c2 = -12.897", "Cosmic background temp = 2.730", "  ",
            "  date    time   TbSky23 TbSky31    TkBB    VapCM    LiqCM   DelCM   AZact  ELact Tau23  Tau31  Tamb   Rh  Pres  Rain           "]
    k = case["split"] % len(rows)
    d = t.path("in")
    os.mkdir(d)
    for i, part in enumerate([rows[:k], rows[k:]]):
        if part:
            for b in case["bad"]:
                part = part[: b % (len(part) + 1)] + [" ".join(part[b % len(part)].split()[:-2])] + part[b % (len(part) + 1):] if part[b % len(part)].split()[1:2] else part
            with open(os.path.join(d, f"f{i}.los"), "w") as fh:
                fh.write("\n".join(head + part) + "\n")
    out = t.path("o.nc")
    arg = {"date": DATE, "str": DATE.isoformat(), "none": None}[case["how"]]
    try:
        radiometrics2nc(d, out, SITE, None, arg)
    except ValidTimeStampError:
        t.ok(not good, "ValidTimeStampError although the date has valid records")
        return t.label("no data")
    t.ok(good, "no exception although no valid record is from the date")
    with netCDF4.Dataset(out) as nc:
        t.same(t.var(nc, "time")[:], np.array([x[0] for x in good]) / 3600, "time", rtol=0, atol=3e-6)
        t.same(t.var(nc, "lwp")[:], np.array([x[1] for x in good]), "lwp", atol=1e-6)
        t.same(t.var(nc, "iwv")[:], ma.masked_invalid([np.nan if x[2] is None else x[2] for x in good]), "iwv", atol=1e-5)
    t.mark(len(good) > 1 and (len(good) != len(rows) or T != sorted(T) or case["bad"]))


if __name__ == "__main__":
    c.main()
