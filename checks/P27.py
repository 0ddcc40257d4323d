import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime

import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy.exceptions import ValidTimeStampError
from cloudnetpy.instruments import wr2nc

c = Check(
    "P27",
    "Sets of OPERA-style files of vertically pointing scans (own ranges, gains, offsets, special values, quantities, dates and times, in any order, with duplicates and garbage ranges) are converted; every profile is decoded and averaged independently.  "
    "Non-trivial: at least two profiles, one masked and one valid reflectivity.",
    ["all files of a call share the calibration constants"],
)
UID = "12345678-1234-5678-1234-567812345678"
DAY = datetime.datetime(2023, 5, 17)
QUANTITIES = ("SNR", "VRADH", "WRADH", "ZDR", "RHOHV")


@st.composite
def wr_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"n": S(4, 1, 2, 8), "bins": S(20, 12, 40), "rays": S(4, 1, 12), "order": S("sorted", "shuffled"), "dup": S(False, True), "other": S("none", "some", "all"), "garbage": S("none", "some", "all"), "ranges": S("same", "same", "shorter", "finer", "shifted"), "dtype": S("u2", "u1"),
            "nodata": S("max", "high"), "gone": S(0.2, 0.0, 0.6), "column": S(False, True), "lost": S("none", "none", "one"), "clutter": S("none", "low", "rain", "gap"), "date": S("given", "text", "none"), "extra": S(False, True), "alt": S(100.0, 0.0, 2000.5), "single": S(False, True), "rstart": S(0.125, 0.0), "seed": draw(st.integers(0, 2**31))}


def write(path, when, scan):
    with netCDF4.Dataset(path, "w", format="NETCDF4") as nc:
        nc.createGroup("what").setncatts({"date": when.strftime("%Y%m%d"), "time": when.strftime("%H%M%S"), "object": "SCAN"})
        nc.createGroup("how").setncatts({"wavelength": scan["wavelength"]})
        d = nc.createGroup("dataset1")
        d.createGroup("where").setncatts({"nbins": np.int64(scan["nbins"]), "rstart": scan["rstart"], "rscale": scan["rscale"], "elangle": 90.0})
        d.createGroup("how").setncatts({"NEZH": scan["NEZH"], "NI": scan["NI"]})
        d.createGroup("what").setncatts({"product": "SCAN", "startdate": "20200101", "starttime": "000000"})
        for i, (q, x) in enumerate(scan["data"].items()):
            g = d.createGroup(f"data{i + 1}")
            g.createGroup("what").setncatts({"quantity": q, "gain": x["gain"], "offset": x["offset"], "nodata": float(x["nodata"]), "undetect": float(x["undetect"])})
            g.createDimension("rays", x["raw"].shape[0])
            g.createDimension("bins", x["raw"].shape[1])
            v = g.createVariable("data", x["raw"].dtype, ("rays", "bins"), fill_value=False)
            v.set_auto_maskandscale(False)
            v[:] = x["raw"]


def make(r, case, bins, rscale, lost=None):
    top = 65535 if case["dtype"] == "u2" else 255
    nodata = top if case["nodata"] == "max" else top - 5
    scan = {"nbins": bins, "rstart": case["rstart"], "rscale": rscale, "wavelength": 5.32, "NEZH": -34.6875, "NI": 15.96, "data": {}}
    ranges = {"SNR": (-6, 40), "VRADH": (-8, 3), "WRADH": (0, 3), "ZDR": (-2, 3), "RHOHV": (0.2, 1), "DBZH": (-20, 20), "TH": (0, 5)}
    for q in QUANTITIES + (("DBZH", "TH") if case["extra"] else ()):
        if q == lost:
            continue
        lo, hi = ranges[q]
        level = r.uniform(lo, hi, (1, bins))
        x = np.clip(level + r.normal(0, (hi - lo) / 20, (case["rays"], bins)), lo, hi)
        if q == "SNR":
            x[:, :6] += {"none": -30, "low": 50, "rain": 50, "gap": -30}[case["clutter"]]
            if case["clutter"] == "gap":
                x[:, 5] += 90
            lo, hi = -40, 130
            x = np.clip(x, lo, hi)
        if q == "VRADH" and case["clutter"] == "rain":
            x[:, :10] = r.uniform(-8, -2, (case["rays"], min(10, bins)))
        offset, gain = lo - (hi - lo) / 100, (hi - lo) * 1.02 / (top - 8)
        raw = np.round((x - offset) / gain).astype(case["dtype"])
        gone = r.random(raw.shape) < case["gone"]
        if case["column"]:
            gone[:, r.random(bins) < 0.2] = True
        raw[gone] = r.choice([0, nodata], int(gone.sum()))
        scan["data"][q] = {"raw": raw, "gain": gain, "offset": offset, "nodata": nodata, "undetect": 0}
    return scan


def profile(scan):
    rng_m = scan["rstart"] * 1000 + scan["rscale"] * (np.arange(scan["nbins"]) + 0.5)
    out = {}
    for q, x in scan["data"].items():
        raw = x["raw"].astype(float)
        use = (raw != x["nodata"]) & (raw != x["undetect"])
        y = x["offset"] + x["gain"] * raw
        p = ma.masked_all(scan["nbins"])
        for j in range(scan["nbins"]):
            if use[:, j].any():
                z = y[use[:, j], j]
                p[j] = 10 * np.log10(np.mean(10 ** (z / 10))) if q in ("SNR", "ZDR") else z.mean()
        out[q] = p
    out["Zh"] = out["SNR"] + scan["NEZH"] + 20 * np.log10(rng_m / 1000)
    return rng_m, out


@c.sub("conversion", wr_case(), quick=120, thorough=2000, shards=4)
def _(case, t):
    r = rng(case["seed"])
    n = case["n"]
    sec = np.sort(r.choice(np.arange(0, 86400, 5), n, replace=False))
    when = [DAY + datetime.timedelta(seconds=int(s)) for s in sec]
    given = case["date"] != "none"
    good = np.ones(n, bool)
    if given and case["other"] == "some" and n > 1:
        k = r.integers(0, n)
        when[k] += datetime.timedelta(days=int(r.choice([-1, 1])))
        good[k] = False
    elif given and case["other"] == "all":
        when = [w - datetime.timedelta(days=1) for w in when]
        good[:] = False
    scans = []
    for i in range(n):
        bins, rscale = case["bins"], 125.0
        if i % 2 and case["ranges"] == "shorter":
            bins -= 3
        elif i % 2 and case["ranges"] == "finer":
            bins, rscale = (bins - 2 if r.random() < 0.5 else int(bins * 1.2)), 100.0
        elif i % 2 and case["ranges"] == "shifted":
            bins, rscale = max(11, bins // 2), 230.0
            if r.random() < 0.5 and bins * rscale >= case["bins"] * 125.0:
                bins, rscale = case["bins"] - 1, 110.0
        scans.append(make(r, case, bins, rscale, r.choice(["WRADH", "ZDR", "RHOHV"]) if case["lost"] == "one" and i > 0 else None))
    jobs = [(when[i], scans[i], good[i]) for i in range(n)]
    if case["garbage"] != "none":
        bad = make(r, case, 900, 125.0)
        if case["garbage"] == "all":
            jobs = [(w, bad, False) for w, _, _ in jobs[:2]]
        else:
            jobs.insert(int(r.integers(0, n + 1)), (DAY + datetime.timedelta(hours=12, seconds=3), bad, False))
    if case["dup"] and case["garbage"] != "all":
        w, s, g = jobs[0]
        jobs.append((w, s, g))
    if case["order"] == "shuffled":
        jobs = [jobs[i] for i in r.permutation(len(jobs))]
    files = []
    for i, (w, s, _) in enumerate(jobs):
        files.append(t.path(f"{i}.h5"))
        write(files[-1], w, s)
    use = {w: s for w, s, g in jobs if g}
    meta = {"name": "Test site", "latitude": 60.25, "longitude": 24.5, "altitude": case["alt"]}
    out = t.path("out.nc")
    args = {"given": {"date": DAY.date()}, "text": {"date": "2023-05-17"}, "none": {}}[case["date"]]
    what = files[0] if len(files) == 1 and case["single"] else files
    if not use:
        try:
            wr2nc(what, out, meta, UID, **args)
        except ValidTimeStampError:
            t.label("no valid scans")
            t.ok(not os.path.exists(out), "a file was left behind")
            return
        t.fail("no exception although there are no scans of the date")
    uid = wr2nc(what, out, meta, UID, **args)
    t.eq(str(uid), UID, "returned uuid")
    # expectation
    order = sorted(use)
    profiles = [profile(use[w]) for w in order]
    reach = [profile(s)[0] for w, s, g in jobs if s["nbins"] < 900]  # also scans of other dates
    target = max(reach, key=lambda x: x[-1])
    fields = {k: ma.masked_all((len(order), len(target))) for k in ("Zh", "SNR", "VRADH", "WRADH", "ZDR", "RHOHV")}
    tie = np.zeros((len(order), len(target)), bool)
    for i, (x, p) in enumerate(profiles):
        for j, y in enumerate(target):
            if y < x[0] or y > x[-1]:
                continue
            d = np.abs(x - y)
            near = np.argsort(d, kind="stable")
            tie[i, j] = len(x) > 1 and abs(d[near[1]] - d[near[0]]) < 1e-6
            for k in fields:
                if k in p:
                    fields[k][i, j] = p[k][near[0]]
    low = slice(0, 10)
    z, v = fields["Zh"][:, low], fields["VRADH"][:, low]
    keep = ~ma.getmaskarray(z) & ~ma.getmaskarray(v) & (ma.getdata(v) >= -1)
    last = -1
    doubt = False
    for j in range(z.shape[1]):
        if keep[:, j].any():
            mean = ma.getdata(z)[keep[:, j], j].mean()
            doubt |= abs(mean + 10) < 1e-3 or bool(tie[:, j].any())
            if mean > -10:
                last = j
    doubt |= bool(np.any(np.abs(ma.filled(v + 1, 9)) < 1e-4))
    if doubt:
        t.label("clutter decision within rounding")
        return
    remove = np.zeros(tie.shape, bool)
    remove[:, :last + 1] = True
    remove |= ma.filled(fields["SNR"] < 0, False)
    tie |= np.abs(ma.filled(fields["SNR"], 9)) < 1e-4
    with netCDF4.Dataset(out) as nc:
        hours = np.array([(w - DAY).total_seconds() / 3600 for w in order])
        t.same(t.var(nc, "time")[:], hours, "time", rtol=1e-6, atol=1e-6)
        t.same(t.var(nc, "range")[:], target, "range")
        t.same(t.var(nc, "height")[:], target + case["alt"], "height")
        for name, k in (("Zh", "Zh"), ("SNR", "SNR"), ("v", "VRADH"), ("width", "WRADH"), ("zdr", "ZDR"), ("rho_hv", "RHOHV")):
            exp = ma.array(fields[k], mask=ma.getmaskarray(fields[k]) | remove | tie)
            got = t.var(nc, name)[:]
            t.same(ma.array(got, mask=ma.getmaskarray(got) | tie), exp, name, rtol=1e-4, atol=2e-4)
            if name == "Zh":
                t.mark(len(order) > 1 and got.count() and ma.getmaskarray(got).any())
        t.same(np.unique(t.var(nc, "radar_frequency")[:]), [299792458 / 0.0532 / 1e9], "radar_frequency", rtol=2e-3)
        t.same(np.unique(t.var(nc, "nyquist_velocity")[:]), [15.96], "nyquist_velocity")
        t.same(np.unique(t.var(nc, "calibration_reflectivity_factor")[:]), [-34.6875], "calibration_reflectivity_factor")
        for k in ("latitude", "longitude", "altitude"):
            t.same(np.unique(t.var(nc, k)[:]), [meta[k]], k)
        t.eq((nc.year, nc.month, nc.day, nc.location, nc.file_uuid), ("2023", "05", "17", "Test site", UID), "global attributes")
        t.ok(nc["time"].units.startswith("hours since 2023-05-17"), "units of time")
    t.label("clutter removed", last >= 0)
    t.label("different ranges", any(not np.array_equal(x, target) for x in reach))
    t.label("other dates left out", not good.all())
    t.label("quantity missing", case["lost"] == "one" and len(order) > 1)


c.main()
