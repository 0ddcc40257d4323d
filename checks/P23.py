import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime
import struct

import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy.exceptions import CloudnetException, ValidTimeStampError
from cloudnetpy.instruments import basta2nc, bowtie2nc, copernicus2nc, galileo2nc, mira2nc, mrr2nc, rpg2nc
from gen import times

c = Check(
    "P23",
    "Raw files of MIRA (mmclx/znc; one file, list or folder), Copernicus, Galileo, BASTA, BOW-TIE, MRR-PRO (netCDF) and RPG-FMCW (binary LV1, versions 2.0/3.5/4.0, single/LDR/STSR) are generated with random moments, "
    "masks, signal-to-noise ratios, pointing, transmit power, unsorted/repeated/other-day times and calibration options; every output pixel is compared with the converted raw value and the documented screening.  "
    "Non-trivial: some but not all pixels or profiles are screened, or times are unsorted/repeated/foreign.",
    ["values closer than 1e-3 to a screening limit are not generated", "among profiles with the same timestamp any one may be kept"],
)
DATE = datetime.date(2023, 5, 17)
E1970 = datetime.date(1970, 1, 1)
S1970 = (DATE - E1970).days * 86400
S2001 = (DATE - datetime.date(2001, 1, 1)).days * 86400
ALT = 123.0


def site(case):
    s = {"name": "Test", "altitude": ALT, "latitude": 60.5, "longitude": 24.5}
    s.update(case.get("meta", {}))
    return s


def maskarr(r, vals, p):
    return ma.array(vals, mask=r.random(vals.shape) < p)


def run(t, fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except (CloudnetException, ValueError) as e:  # all documented
        return e


def verify(t, out, profs, rng_exp, cols, kept=None, one_d=(), zen=None, tol=1e-3, any_mask=None, domain="radar"):
    """profs: dicts with s (second of day), ok, and per column a masked 1-D array.

    kept: distinct times that must be present.  Every output profile must equal one of the
    acceptable profiles of that time."""
    by = {}
    for p in profs:
        if p["ok"]:
            by.setdefault(p["s"], []).append(p)
    with netCDF4.Dataset(out) as nc:
        nc.set_auto_mask(True)
        for k, v in (("year", "2023"), ("month", "05"), ("day", "17"), ("cloudnet_file_type", domain), ("location", "Test")):
            t.eq(str(getattr(nc, k)), v, k)
        s = t.var(nc, "time")[:].astype(float) * 3600
        exp = np.array(sorted(by))
        t.same(s, exp, "time (s)", rtol=0, atol=0.05)
        t.same(t.var(nc, "range")[:], rng_exp, "range", rtol=1e-6, atol=1e-3)
        if zen is not None:
            h = ALT + np.asarray(rng_exp) * np.cos(np.radians(zen))
            t.same(t.var(nc, "height")[:], h, "height", rtol=1e-6, atol=2e-3)
        got = {k: np.ma.array(t.var(nc, k)[:]) for k in (*cols, *one_d)}
        for k in cols:
            t.eq(got[k].shape, (len(exp), len(rng_exp)), f"shape of {k}")
        for i, sec in enumerate(exp):
            errs = []
            for p in by[sec]:
                err = None
                for k in (*cols, *one_d):
                    g = got[k][i] if got[k].ndim else got[k]
                    e = p[k]
                    gm, em = np.ma.getmaskarray(g), np.ma.getmaskarray(e)
                    diff = gm != em
                    if any_mask is not None and k in cols:
                        diff &= ~any_mask | ~gm
                    if np.any(diff):
                        err = f"{k} at {sec} s: mask {np.atleast_1d(gm).astype(int).tolist()}, expected {np.atleast_1d(em).astype(int).tolist()}"
                        break
                    ok = ~(gm | em)
                    a, b = np.atleast_1d(np.ma.getdata(g).astype(float))[np.atleast_1d(ok)], np.atleast_1d(np.ma.getdata(e).astype(float))[np.atleast_1d(ok)]
                    if not np.allclose(a, b, rtol=1e-5, atol=tol if k in cols else 1e-9):
                        err = f"{k} at {sec} s: {a.tolist()}, expected {b.tolist()}"
                        break
                if err is None:
                    break
                errs.append(err)
            else:
                t.fail("; ".join(errs[:2]))
            t.comparisons += len(cols)


def may_be_all_masked(times_, vis):
    """True if a choice among the profiles of equal time exists without any visible pixel."""
    return all(any(not vis[i].any() for i in range(len(times_)) if times_[i] == s) for s in set(times_))


def put(nc, name, dims, data, dtype="f4", fill=None, **att):
    v = nc.createVariable(name, dtype, dims, fill_value=fill)
    for k, x in att.items():
        v.setncattr(k, x)
    v[...] = data
    return v


def away(r, lims, lo, hi, size, margin):
    """Uniform values that keep a margin from each of the limits."""
    x = r.uniform(lo, hi, size)
    for lim in lims:
        near = np.abs(x - lim) < margin
        x[near] = lim + margin * np.where(r.random(near.sum()) < 0.5, -1, 1) * 2
    return x


def stable(el, az, thr, eldiff, azdiff):
    """Profiles that point to zenith and have not moved since the previous profile."""
    n = len(el)
    keep = []
    for i in range(n):
        j = i - 1 if i else 1
        ok = True
        if el is not None and not np.isnan(el[i]):
            ok &= abs(el[i] - 90) < thr
            if not np.isnan(el[j]):
                ok &= abs(el[i] - el[j]) < eldiff
        if not (np.isnan(az[i]) or np.isnan(az[j])):
            d = abs(az[i] - az[j]) % 360
            ok &= min(d, 360 - d) < azdiff
        keep.append(bool(ok))
    return keep


# pointing patterns: value per profile index after sorting and removal of duplicates
POINT = {
    "none": lambda n, r: (np.full(n, 90.0), np.full(n, 0.0)),
    "tilt": lambda n, r: (np.full(n, 89.25), np.full(n, 45.0)),
    "toolow": lambda n, r: (np.full(n, 88.5), np.full(n, 45.0)),
    "scan": lambda n, r: (np.where((np.arange(n) // max(1, n // 3)) % 2 == 1, 60.0, 90.0), np.full(n, 10.0)),
    "azwrap": lambda n, r: (np.full(n, 90.0), np.where(np.arange(n) % 2, 359.99995, 0.0)),
    "azstep": lambda n, r: (np.full(n, 90.0), np.where(np.arange(n) < (n + 1) // 2, 10.0, 200.0)),
    "first": lambda n, r: (np.where(np.arange(n) == 0, 45.0, 90.0), np.full(n, 10.0)),
    "last": lambda n, r: (np.where(np.arange(n) == n - 1, 45.0, 90.0), np.full(n, 10.0)),
    "azfirst": lambda n, r: (np.full(n, 90.0), np.where(np.arange(n) == 0, 200.0, 10.0)),
    "elstep": lambda n, r: (np.where(np.arange(n) < (n + 1) // 2, 90.0, 89.375), np.full(n, 10.0)),
    "eltwo": lambda n, r: (np.where(np.arange(n) < (2 * n + 1) // 3, 90.0, 88.9375), np.full(n, 10.0)),
}
pointing = st.sampled_from(["none", "none", "none", "tilt", "toolow", "scan", "azwrap", "azstep", "azfirst", "first", "last", "elstep", "eltwo"])
gates = st.sampled_from([2, 3, 5, 8, 16, 40])


# ---------------------------------------------------------------------------- MIRA
@st.composite
def mira_case(draw):
    meta = {}
    m = draw(st.sampled_from([None, None, "mira-35", "mira-35s", "mira-35c", "mira-10"]))
    if m:
        meta["model"] = m
    if draw(st.booleans()):
        meta["snr_limit"] = draw(st.sampled_from([-17, -30, -5, 3, None]))
    if draw(st.sampled_from([0, 0, 1])):
        meta["zenith_offset"] = draw(st.sampled_from([0.5, -0.5, 2]))
    if draw(st.sampled_from([0, 0, 1])):
        meta["azimuth_offset"] = draw(st.sampled_from([10, -30.5]))
    if draw(st.sampled_from([0, 0, 0, 1])):
        meta["range_correction_factor"] = draw(st.sampled_from([0.97, 1.5]))
    return {"t": draw(times(steps=(1, 10, 600))), "m": draw(gates), "meta": meta, "ext": draw(st.sampled_from(["mmclx", "znc", "mmclx", "znc", "mmclx.tmp"])),
            "how": draw(st.sampled_from(["file", "file", "list", "dir"])), "names": draw(st.sampled_from(["new", "new", "old", "both", "stsr"])),
            "point": draw(pointing), "angles": draw(st.sampled_from([1, 1, 1, 0])), "pow": draw(st.sampled_from(["ok", "ok", "low", "some", "absent"])),
            "hrd": draw(st.sampled_from(["fzk", "fzk100", "x", "x"])), "pol": draw(st.sampled_from([1, 1, 1, 0])), "ldr": draw(st.sampled_from(["neg", "neg", "pos"])),
            "date": draw(st.sampled_from(["date", "date", "str", "none"])), "seed": draw(st.integers(0, 2**31)), "scal": draw(st.booleans()), "parts": draw(st.integers(1, 3)),
            "snrs": draw(st.sampled_from(["wide", "high", "low"])), "badang": draw(st.sampled_from([0, 1])), "nyq": draw(st.booleans())}


@c.sub("mira", mira_case(), quick=300, shards=2)
def _(case, t):
    r = rng(case["seed"])
    meta = case["meta"]
    tt = list(case["t"])
    if case["date"] == "none":
        tt = [x % 86400 for x in tt]
    tt = [x if x % 86400 else x + 1 for x in tt]
    n, m = len(tt), case["m"]
    model = meta.get("model")
    lim = meta["snr_limit"] if meta.get("snr_limit") is not None else (-30 if model == "mira-10" else -17)
    snr = {"wide": away(r, [lim], -40, 40, (n, m), 0.05), "high": r.uniform(10, 40, (n, m)), "low": away(r, [lim], lim - 20, lim + 3, (n, m), 0.05)}[case["snrs"]]
    f = {"Zh": r.uniform(-50, 25, (n, m)), "v": r.uniform(-8, 8, (n, m)), "width": r.uniform(0.01, 3, (n, m)), "SNR": snr,
         "ldr": r.uniform(-35, -1, (n, m)) if case["ldr"] == "neg" else r.uniform(1, 9, (n, m))}
    miss = r.random((n, m)) < 0.15
    f = {k: ma.array(v, mask=miss | (r.random((n, m)) < (0.08 if k != "SNR" else 0))) for k, v in f.items()}
    # pointing and transmit power as functions of the timestamp (equal timestamps agree)
    sel = sorted({x for x in tt if 0 <= x < 86400} if case["date"] != "none" else set(tt))
    idx = {s: i for i, s in enumerate(sel)}
    el, az = POINT[case["point"]](max(len(sel), 2), r)
    scale = 0.1 if model == "mira-35c" else 1
    pw = {"ok": np.full(len(sel), 20.0), "low": np.full(len(sel), 3.0), "some": r.choice([20.0, 3.0], len(sel)), "absent": np.full(len(sel), 20.0)}[case["pow"]] * scale
    if model == "mira-35c" and case["pow"] == "low":
        pw = pw * 0.5
    if model == "mira-35c":
        pw = np.where(pw < 1, 0.3, pw)
    fzk_bug = case["hrd"] == "fzk"
    zo, ao = meta.get("zenith_offset", 0), meta.get("azimuth_offset", 0)
    P = {"e": [], "a": [], "p": []}
    for s in tt:
        i = idx.get(s)
        P["e"].append(float(el[i]) + zo if i is not None else 90.0)
        P["a"].append(float(az[i]) - ao if i is not None else 0.0)
        P["p"].append(float(pw[i]) if i is not None else 20.0)
    # angles far outside their range are missing
    wrong = {s for s in sel if case["badang"] and case["angles"] and r.random() < 0.3}
    P["e"] = [float(r.choice([-999, 999])) if s in wrong else x for s, x in zip(tt, P["e"])]
    P["a"] = [float(r.choice([-9999, 9999])) if s in wrong else x for s, x in zip(tt, P["a"])]
    el = np.array([np.nan if i < len(sel) and sel[i] in wrong else x for i, x in enumerate(el)])
    az = np.array([np.nan if i < len(sel) and sel[i] in wrong else x for i, x in enumerate(az)])
    nyq = {s: 10.5 - (2.25 if case["nyq"] and i >= len(sel) // 2 else 0) for i, s in enumerate(sel)}
    nyq_file = {}
    # old files report low powers 100 times too small
    ppow = np.array(P["p"]) * (0.01 if fzk_bug else 1)
    gate = 30.0 * (1 + np.arange(m))
    lin = lambda x: 10 ** (x / 10)
    z = case["ext"] == "znc"
    names = {"Zh": "Zg", "v": "VELg", "width": "RMSg", "ldr": "LDRg", "SNR": "SNRg"}
    if case["names"] == "stsr" and z:
        names2 = {"Zh": "Zh2l", "v": "VELh2l", "width": "RMSh2l", "ldr": "LDRh2l", "SNR": "SNRh2l"}
    elif case["names"] == "old" and not z:
        names = {**names, "Zh": "Ze"}
        names2 = {}
    else:
        names2 = {}
    parts = case["parts"] if case["how"] != "file" else 1
    # concatenation is in file-name order; times are arbitrary
    cuts = [0, *sorted(r.integers(0, n + 1, parts - 1).tolist()), n]
    src = t.path("in")
    os.mkdir(src)
    files = []
    for j in range(parts):
        a, b = cuts[j], cuts[j + 1]
        if a == b:
            continue
        fn = os.path.join(src, f"20230517_{j:02d}00.{case['ext'].split('.')[0]}")
        files.append(fn)
        with netCDF4.Dataset(fn, "w", format="NETCDF4" if z else "NETCDF3_CLASSIC") as nc:
            nc.createDimension("time", None)
            nc.createDimension("range", m)
            hrd = ["NAME:x.pds", "SN:" + ("fzk" if case["hrd"].startswith("fzk") else "dwd"), "XMT:      3.51500e+10" if model != "mira-10" else "XMT:      9.40000e+09", f"POL:          {case['pol']}"]
            if case["hrd"] == "fzk100":
                hrd.append("FZK100:      1.00000")
            nc.hrd = "\n".join(hrd)
            nc.location = "X"
            put(nc, "time", ("time",), [S1970 + x for x in tt[a:b]], "i4", units="Seconds")
            put(nc, "range", ("range",), gate, units="m")
            put(nc, "nfft", (), 256, "i4", units="count")
            put(nc, "nave", (), 200, "i4", units="count")
            put(nc, "prf", (), 5000, "i4", units="Hz")
            put(nc, "rg0", (), 3, "i4", units="count")
            if case["scal"]:
                v = 10.5 - 0.5 * j * case["nyq"]
                for x in tt[a:b]:
                    nyq_file.setdefault(x, []).append(v)
            else:
                v = [nyq.get(x, 3.0) for x in tt[a:b]]
            put(nc, "NyquistVelocity", () if case["scal"] else ("time",), v, units="m s-1")
            if case["pow"] != "absent":
                put(nc, "tpow", ("time",), ppow[a:b], units="W")
            if case["angles"]:
                put(nc, "elv", ("time",), P["e"][a:b], units="deg")
                put(nc, "azi", ("time",), P["a"][a:b], units="deg")
            for k, nm in names.items():
                v = f[k][a:b] if not names2 else ma.array(np.full((b - a, m), 0.5))
                d = lin(v) if k in ("Zh", "ldr", "SNR") else v
                put(nc, nm, ("time", "range"), d, fill=-999.0 if z else None, units=" ")
            for k, nm in names2.items():
                v = f[k][a:b]
                put(nc, nm, ("time", "range"), lin(v) if k in ("Zh", "ldr", "SNR") else v, fill=-999.0 if z else None, units=" ")
            if case["names"] == "both" and not z:
                put(nc, "Ze", ("time", "range"), np.full((b - a, m), 0.25), units=" ")
    arg = {"file": files[0], "list": list(reversed(files)), "dir": src}[case["how"]]
    if case["ext"] == "mmclx.tmp" and case["how"] == "file":
        arg = files[0] + ".1"
        os.rename(files[0], arg)
    out = t.path("o.nc")
    date = {"date": DATE, "str": DATE.isoformat(), "none": None}[case["date"]]
    res = run(t, mira2nc, arg, out, site(case), None, date)
    # -- expectation
    uniq = [s for s in sel if case["pow"] == "absent" or pw[idx[s]] >= (0.5 if model == "mira-35c" else 5)]
    keep = stable([float(el[idx[s]]) for s in uniq] if case["angles"] else [np.nan] * len(uniq), [float(az[idx[s]]) for s in uniq] if case["angles"] else [np.nan] * len(uniq), 1.1, 1e-6, 1e-3) if len(uniq) > 1 else []
    if case["angles"] and case["point"] == "azwrap":
        keep = [True] * len(uniq) if len(uniq) > 1 else []
    if wrong and len(uniq) > 1:
        t.label("invalid angles")
    kept = [s for s, k in zip(uniq, keep) if k]
    t.label(f"{case['ext']} {case['how']}")
    if len(kept) < 2:
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"fewer than two valid profiles: {res!r}")
        return
    okk = [i for i in range(n) if tt[i] in kept]
    vis = ~(ma.getmaskarray(f["Zh"]) | ma.getmaskarray(f["v"])) & (ma.filled(f["SNR"], 999) >= lim)
    # whole-file decision on ldr uses all profiles that are left at that point
    if may_be_all_masked([tt[i] for i in okk], vis[okk]):
        return
    if isinstance(res, Exception):
        t.fail(f"{type(res).__name__}: {res}")
    cols = ["Zh", "v", "width", "SNR"] + (["ldr"] if case["pol"] else [])
    profs = []
    for i in range(n):
        p = {"s": tt[i], "ok": tt[i] in kept}
        for k in cols:
            p[k] = ma.array(f[k][i], mask=ma.getmaskarray(f[k][i]) | ~vis[i])
        if case["ldr"] == "pos" and case["pol"]:
            p["ldr"] = ma.masked_all(m)
        profs.append(p)
    if not case["pol"]:
        with netCDF4.Dataset(out) as nc:
            t.ok("ldr" not in nc.variables, "ldr of a radar without polarisation measurement")
    known = [el[idx[s]] for s in kept if s not in wrong]
    zen = 90 - float(np.median(known)) if case["angles"] and known else 0
    verify(t, out, profs, gate * meta.get("range_correction_factor", 1), cols, zen=zen, tol=2e-3)
    with netCDF4.Dataset(out) as nc:
        nv = np.ma.atleast_1d(t.var(nc, "nyquist_velocity")[:])
        if nv.ndim == 2:
            t.ok(ma.count(nv) == nv.size and (nv == nv[:, :1]).all(), "nyquist velocity is the same at all gates")
            nv = nv[:, 0]
        nv = np.broadcast_to(nv, len(kept))
        for x, s in zip(nv, kept):
            t.ok(any(abs(x - y) < 1e-5 for y in (nyq_file[s] if case["scal"] else [nyq[s]])), f"nyquist velocity {x} at {s} s")
        t.same(np.unique(t.var(nc, "radar_frequency")[:].compressed()), np.array([9.4 if model == "mira-10" else 35.15]), "radar frequency")
        if case["pow"] != "absent":
            t.same(t.var(nc, "tpow")[:], np.array([pw[idx[s]] for s in kept]), "transmit power", rtol=1e-4)
        if case["angles"]:
            t.same(t.var(nc, "zenith_angle")[:], ma.masked_invalid([90 - el[idx[s]] for s in kept]), "zenith angle", atol=1e-3)
            d = (t.var(nc, "azimuth_angle")[:] - np.array([az[idx[s]] for s in kept])) % 360
            t.ok(np.array_equal(ma.getmaskarray(d), [s in wrong for s in kept]), "missing azimuth angles")
            t.ok(not ma.any(np.minimum(d, 360 - d) >= 1e-2), "azimuth angle")
        for k, v in (("nfft", 256), ("nave", 200), ("prf", 5000), ("rg0", 3)):
            t.same(np.unique(t.var(nc, k)[:].compressed()), np.array([v]), k)
    t.mark(len(kept) < n or not vis[okk].all() or tt != sorted(set(tt)))


# ---------------------------------------------------------------- Chilbolton radars
@st.composite
def chil_case(draw):
    meta = {}
    if draw(st.booleans()):
        meta["Zh_offset"] = draw(st.sampled_from([-146.8, 0, 3.5]))
    if draw(st.booleans()):
        meta["range_offset"] = draw(st.sampled_from([0, -100, -720, 50]))
    if draw(st.booleans()):
        meta["snr_limit"] = draw(st.sampled_from([0, 5, -3]))
    tt = draw(times(steps=(1, 10, 600), kinds=("sorted", "sorted", "shuffled", "dup")))
    m = draw(st.sampled_from([2, 5, 16, 40, 60, 80]) if draw(st.booleans()) else st.just(max(len(tt), 2)))
    return {"t": tt, "m": m, "meta": meta, "seed": draw(st.integers(0, 2**31)), "point": draw(pointing), "how": draw(st.sampled_from(["file", "file", "dir"])),
            "parts": draw(st.integers(1, 3)), "cal": draw(st.sampled_from([None, 0.0, -146.8, 2.5])), "roff": draw(st.sampled_from([None, 0.0, -389.75, 100.0])),
            "date": draw(st.sampled_from(["date", "str", "none", "other"])), "start": draw(st.sampled_from([30.0, -330.0, 400.0]))}


def chil_write(t, case, f, tt, el, az, gate, ldrname):
    r = rng(case["seed"] + 1)
    n, m = len(tt), len(gate)
    parts = case["parts"] if case["how"] == "dir" else 1
    cuts = [0, *sorted(r.integers(0, n + 1, parts - 1).tolist()), n]
    src = t.path("in")
    os.mkdir(src)
    fn = None
    for j in range(parts):
        a, b = cuts[j], cuts[j + 1]
        if a == b:
            continue
        fn = os.path.join(src, f"radar_{j:02d}.nc")
        with netCDF4.Dataset(fn, "w", format="NETCDF3_CLASSIC") as nc:
            nc.createDimension("time", None)
            nc.createDimension("range", m)
            nc.year, nc.month, nc.day = "2023", "5", "17"
            put(nc, "time", ("time",), tt[a:b], units="seconds since 2023-05-17 00:00")
            v = put(nc, "range", ("range",), gate, units="m")
            if case["roff"] is not None:
                v.range_offset = np.float32(case["roff"])
            put(nc, "elevation", ("time",), el[a:b], units="degree")
            put(nc, "azimuth", ("time",), az[a:b], units="degree")
            put(nc, "height", (), 90.0, units="m")
            put(nc, "latitude", (), 51.1, units="degree")
            put(nc, "longitude", (), -1.4, units="degree")
            for k in ("antenna_diameter", "beamwidthV", "beamwidthH"):
                put(nc, k, (), {"antenna_diameter": 2.4, "beamwidthV": 0.25, "beamwidthH": 0.3}[k], units="m")
            for k, nm in (("Zh", "ZED_HC"), ("v", "VEL_HC"), ("width", "SPW_HC"), ("SNR", "SNR_HC"), ("ldr", ldrname)):
                v = put(nc, nm, ("time", "range"), f[k][a:b], fill=-999.0, units="dB")
                if k == "Zh" and case["cal"] is not None:
                    v.applied_calibration_offset = np.float32(case["cal"])
                if k == "v":
                    v.folding_velocity = np.float32(10.719)
    if case["how"] == "dir" and r.random() < 0.5:
        with open(os.path.join(src, "zz.txt"), "w") as fh:
            fh.write("x")
    return src if case["how"] == "dir" else fn


def chil_common(t, case, func, ldrname, screen):
    r = rng(case["seed"])
    tt = [x if x % 86400 else x + 1 for x in case["t"]]
    if max(tt) <= 30:
        tt = [x + 100 for x in tt]
    n, m = len(tt), case["m"]
    gate = (case["start"] + 60.0 * np.arange(m)).astype("f4").astype(float)
    sel = sorted(set(tt))
    idx = {s: i for i, s in enumerate(sel)}
    el0, az0 = POINT[case["point"]](max(len(sel), 2), r)
    if case["point"] == "azwrap":
        az0 = np.where(np.arange(len(az0)) % 2, 359.98, 0.02)
    el = np.array([el0[idx[s]] for s in tt])
    az = np.array([az0[idx[s]] for s in tt])
    miss = r.random((n, m)) < 0.12
    f = {"Zh": away(r, [-15], -50, 20, (n, m), 0.05), "v": away(r, [-9, 9], -11, 11, (n, m), 0.05), "width": away(r, [3], 0.05, 4, (n, m), 0.02),
         "SNR": r.uniform(-12, 20, (n, m)), "ldr": away(r, [-5], -30, 5, (n, m), 0.05)}
    if case["seed"] % 3 == 0:  # noise at the top only
        f["SNR"][:, : max(1, m - 50)] += 20
    f = {k: ma.array(v.astype("f4").astype(float), mask=miss | (r.random((n, m)) < (0.08 if k in ("Zh", "v", "width", "ldr") else 0))) for k, v in f.items()}
    if func is copernicus2nc:  # width and velocity are moments of the same spectrum
        f["width"] = ma.array(f["width"].data, mask=ma.getmaskarray(f["v"]))
    arg = chil_write(t, case, f, tt, el, az, gate, ldrname)
    out = t.path("o.nc")
    date = {"date": DATE, "str": DATE.isoformat(), "none": None, "other": DATE + datetime.timedelta(1)}[case["date"]]
    res = run(t, func, arg, out, site(case), None, date)
    if case["date"] == "other":
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"another date: {res!r}")
        return
    keep = stable([float(el0[idx[s]]) for s in sel], [float(az0[idx[s]]) for s in sel], 1.1, screen["eldiff"], 0.1) if len(sel) > 1 else []
    kept = [s for s, k in zip(sel, keep) if k]
    rng_out, gsel, vis, unsure = screen["fn"](f, gate, case)
    if len(gsel) == 0:
        t.ok(isinstance(res, Exception), "no gates left")
        return
    if len(kept) < 2:
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"fewer than two valid profiles: {res!r}")
        return
    okk = [i for i in range(n) if tt[i] in kept]
    if may_be_all_masked([tt[i] for i in okk], vis[okk][:, gsel]):
        return
    if isinstance(res, Exception):
        t.fail(f"{type(res).__name__}: {res}")
    zoff = screen["zoff"](case)
    profs = []
    for i in range(n):
        p = {"s": tt[i], "ok": tt[i] in kept}
        for k in ("Zh", "v", "width", "ldr", "SNR"):
            x = f[k][i] + (zoff if k == "Zh" else 0)
            p[k] = ma.array(x, mask=ma.getmaskarray(x) | ~vis[i])[gsel]
        profs.append(p)
    verify(t, out, profs, rng_out, ["Zh", "v", "width", "ldr", "SNR"], zen=90 - float(np.median([el0[idx[s]] for s in kept])), any_mask=unsure)
    with netCDF4.Dataset(out) as nc:
        t.same(np.unique(t.var(nc, "nyquist_velocity")[:].compressed()), np.array([10.719]), "nyquist velocity")
        for k, v in (("antenna_diameter", 2.4), ("beamwidthV", 0.25), ("beamwidthH", 0.3)):
            t.same(np.unique(t.var(nc, k)[:].compressed()), np.array([v]), k)
        t.same(t.var(nc, "zenith_angle")[:], np.array([90 - el0[idx[s]] for s in kept]), "zenith angle", atol=1e-3)
    t.mark(len(kept) < n or not vis[okk].all() or tt != sorted(set(tt)))
    t.label("n_time == n_range", n == m)


def cop_screen(f, gate, case):
    snr = f["SNR"]
    top = ma.mean(snr[:, -50:], axis=1)
    near = np.abs(ma.filled(snr - (top[:, None] + 2), 9)) < 1e-3
    low = ma.filled(snr < top[:, None] + 2, False)
    bad_v = (np.abs(ma.filled(f["v"], 0)) > 9) | (ma.filled(f["width"], 0) > 3)
    vis = ~(ma.getmaskarray(f["Zh"]) | ma.getmaskarray(f["v"])) & ~low & ~bad_v
    new = gate - (case["roff"] or 0) + case["meta"].get("range_offset", -720)
    first = gate < 150
    vis = vis & ~first
    gsel = np.where(new >= 0)[0]
    return new[gsel], gsel, vis, None if not near.any() else np.ones(len(gsel), bool)


c.sub("copernicus", chil_case(), quick=200, shards=2)(
    lambda case, t: chil_common(t, case, copernicus2nc, "LDR_C", {"eldiff": 0.5, "fn": cop_screen, "zoff": lambda k: -(k["cal"] or 0) + k["meta"].get("Zh_offset", -149.5)}))


def gal_screen(f, gate, case):
    lim = case["meta"].get("snr_limit", 3)
    gsel = np.where(gate > 0)[0]
    vis = ~(ma.getmaskarray(f["Zh"]) | ma.getmaskarray(f["v"])) & (ma.filled(f["SNR"], 999) >= lim)
    low = gsel[:15]
    clutter = np.zeros(vis.shape, bool)
    clutter[:, low] = (ma.filled(f["ldr"][:, low], -99) > -5) & (ma.filled(f["Zh"][:, low], 99) < -15)
    return gate[gsel], gsel, vis & ~clutter, None


c.sub("galileo", chil_case(), quick=200, shards=2)(
    lambda case, t: chil_common(t, case, galileo2nc, "LDR_HC", {"eldiff": 0.1, "fn": gal_screen, "zoff": lambda k: 0}))


# ------------------------------------------------------------- BASTA, BOW-TIE, MRR
@st.composite
def simple_case(draw):
    return {"t": draw(times(steps=(1, 10, 600), kinds=("sorted", "sorted", "shuffled", "dup"))), "m": draw(gates), "meta": {}, "seed": draw(st.integers(0, 2**31)),
            "el": draw(st.sampled_from([90.0, 90.0, 89.0, 85.5, 93.0])), "elarr": draw(st.booleans()), "date": draw(st.sampled_from(["date", "str", "none", "other"])),
            "gps": draw(st.booleans())}


@c.sub("basta", simple_case(), quick=150)
def _(case, t):
    r = rng(case["seed"])
    tt = [x + 100 if max(case["t"]) <= 30 else (x or 1) for x in case["t"]]
    n, m = len(tt), case["m"]
    gate = 25.0 * (1 + np.arange(m))
    f = {"Zh": r.uniform(-40, 20, (n, m)), "v": r.uniform(-9, 9, (n, m))}
    f = {k: ma.array(v, mask=r.random((n, m)) < 0.1) for k, v in f.items()}
    bg = r.choice([1, 1, 1, 0, -1], (n, m))
    ang = {k: r.uniform(-2, 2, n) for k in ("radar_pitch", "radar_yaw", "radar_roll")}
    fn = t.path("b.nc")
    with netCDF4.Dataset(fn, "w") as nc:
        nc.createDimension("time", n)
        nc.createDimension("range", m)
        nc.year, nc.month, nc.day = "2023", "5", "17"
        put(nc, "time", ("time",), tt, "f8", units="seconds since 2023-05-17 00:00")
        put(nc, "range", ("range",), gate, "f8", units="m")
        put(nc, "elevation", ("time",) if case["elarr"] else (), case["el"], units="degrees")
        put(nc, "ambiguous_velocity", (), 9.9, units="m.s-1")
        if case["gps"]:
            put(nc, "latitude", ("time",), 48.7, units="degrees_north")
            put(nc, "longitude", ("time",), 2.2, units="degrees_east")
            put(nc, "altitude", ("time",), 156.0, units="m")
        for k, v in ang.items():
            put(nc, k, ("time",), v, units="degree")
        put(nc, "reflectivity", ("time", "range"), f["Zh"], fill=-999.0, units="dBZ")
        put(nc, "velocity", ("time", "range"), f["v"], fill=-999.0, units="m.s-1")
        put(nc, "background_mask", ("time", "range"), bg, "i1")
    out = t.path("o.nc")
    date = {"date": DATE, "str": DATE.isoformat(), "none": None, "other": DATE + datetime.timedelta(1)}[case["date"]]
    res = run(t, basta2nc, fn, out, site(case), None, date)
    if case["date"] == "other":
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"another date: {res!r}")
        return
    vis = bg == 1
    if may_be_all_masked(tt, vis & ~ma.getmaskarray(f["v"])):
        return
    if isinstance(res, Exception):
        t.fail(f"{type(res).__name__}: {res}")
    profs = [{"s": tt[i], "ok": True, **{k: ma.array(f[k][i], mask=ma.getmaskarray(f[k][i]) | ~vis[i]) for k in f}, **{k: ma.array(ang[k][i]) for k in ang}} for i in range(n)]
    verify2(t, out, profs, gate, ["Zh", "v"], list(ang), 90 - case["el"])
    with netCDF4.Dataset(out) as nc:
        t.same(np.unique(t.var(nc, "nyquist_velocity")[:].compressed()), np.array([9.9]), "nyquist velocity")
        t.same(np.unique(t.var(nc, "latitude")[:].compressed()), np.array([48.7 if case["gps"] else 60.5]), "latitude")
    t.mark(not vis.all() or tt != sorted(set(tt)))


def verify2(t, out, profs, gate, cols, one_d, zen):
    for p in profs:
        for k in one_d:
            p[k] = ma.array(np.float32(p[k]))
    verify(t, out, profs, gate, cols, one_d=one_d, zen=zen)


@c.sub("bowtie", simple_case(), quick=150)
def _(case, t):
    r = rng(case["seed"])
    tt = list(case["t"])
    n, m = len(tt), case["m"]
    days = (DATE - datetime.date(2020, 1, 1)).days
    if case["m"] == n:
        t.label("n_time == n_range")
    gate = 30.0 * (4 + np.arange(m))
    tt = [x if x else x + 1 for x in tt]
    f = {"Zh": r.uniform(-40, 20, (n, m)), "v": r.uniform(-9, 9, (n, m)), "width": r.uniform(0.1, 2, (n, m)), "ldr": r.uniform(-35, -5, (n, m)),
         "kurtosis": r.uniform(1, 4, (n, m)), "skewness": r.uniform(-2, 2, (n, m)), "SNR": r.uniform(1, 100, (n, m))}
    f = {k: ma.array(v, mask=r.random((n, m)) < 0.1) for k, v in f.items()}
    lwp, rh, rain = r.uniform(-20, 500, n), r.uniform(20, 100, n), r.uniform(0, 5, n)
    nch = int(r.integers(1, 4))
    while nch in (n, m):  # dimensions of the file are recognised by their length
        nch += 1
    nyq = np.sort(r.uniform(4, 12, nch))[::-1]
    fn = t.path("b.nc")
    with netCDF4.Dataset(fn, "w") as nc:
        nc.createDimension("time", n)
        nc.createDimension("range", m)
        nc.createDimension("chirp", nch)
        nc.year, nc.month, nc.day = "2023", "5", "17"
        put(nc, "time", ("time",), [days * 86400 + x for x in tt], "f8", -999.0, units="seconds since 2020-01-01T00:00")
        put(nc, "range", ("range",), gate, "f4", -999.0, units="m")
        put(nc, "frequency", (), 94.0)
        put(nc, "Nyquist_velocity", ("chirp",), nyq, "f4", np.nan, units="m s-1")
        put(nc, "range_offsets", ("chirp",), np.arange(nch), "f8", np.nan)
        put(nc, "latitude", ("time",), 12.5, fill=np.nan, units="degrees_north")
        put(nc, "longitude", ("time",), -24.5, fill=np.nan, units="degrees_east")
        put(nc, "altitude", (), 15.0, fill=np.nan, units="m")
        put(nc, "lwp", ("time",), lwp, fill=np.nan, units="g m-2")
        put(nc, "rain", ("time",), rain, fill=np.nan, units="mm h-1")
        put(nc, "SurfRelHum", ("time",), rh, fill=np.nan, units="%")
        for k, v in f.items():
            put(nc, {"kurtosis": "kurt", "skewness": "Skew"}.get(k, k), ("time", "range"), v, fill=np.nan)
    out = t.path("o.nc")
    date = {"date": DATE, "str": DATE.isoformat(), "none": None, "other": DATE + datetime.timedelta(1)}[case["date"]]
    res = run(t, bowtie2nc, fn, out, site(case), None, date)
    if case["date"] == "other":
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"another date: {res!r}")
        return
    if may_be_all_masked(tt, ~ma.getmaskarray(f["v"])):
        return
    if isinstance(res, Exception):
        t.fail(f"{type(res).__name__}: {res}")
    profs = [{"s": tt[i], "ok": True, **{k: f[k][i] for k in f}, "lwp": lwp[i] * 1e-3, "relative_humidity": rh[i] / 100, "rainfall_rate": rain[i] / 3.6e6} for i in range(n)]
    verify2(t, out, profs, gate, list(f), ["lwp", "relative_humidity", "rainfall_rate"], 0)
    with netCDF4.Dataset(out) as nc:
        got = t.var(nc, "nyquist_velocity")[:]
        t.same(np.atleast_2d(got)[-1], nyq, "nyquist velocity")
        t.same(np.atleast_2d(t.var(nc, "chirp_start_indices")[:])[-1], np.arange(nch), "chirp start indices")
    t.mark(tt != sorted(set(tt)) or any(ma.getmaskarray(v).any() for v in f.values()))


@st.composite
def mrr_case(draw):
    return {"t": draw(times(steps=(1, 10, 600))), "m": draw(gates), "meta": {}, "seed": draw(st.integers(0, 2**31)), "el": draw(st.sampled_from([90.0, 90.0, 88.5])),
            "date": draw(st.sampled_from(["date", "str", "none"])), "how": draw(st.sampled_from(["file", "file", "list", "dir"])), "parts": draw(st.integers(1, 3)),
            "junk": draw(st.booleans()), "r0": draw(st.sampled_from([0.0, 30.0, 123.0]))}


@c.sub("mrr", mrr_case(), quick=150)
def _(case, t):
    r = rng(case["seed"])
    tt = [x if x % 86400 else x + 1 for x in case["t"]]
    if case["date"] == "none":
        tt = [x % 86400 for x in tt]
    n, m = len(tt), case["m"]
    gate = case["r0"] + 30.0 * np.arange(m)
    f = {"rainfall_rate": r.uniform(0, 20, (n, m)), "width": r.uniform(0.1, 2, (n, m)), "v": r.uniform(-2, 10, (n, m)), "lwc": r.uniform(0, 2, (n, m)), "Zh": r.uniform(-10, 50, (n, m)),
         "pia": r.uniform(0, 3, (n, m))}
    f = {k: ma.array(v, mask=r.random((n, m)) < 0.1) for k, v in f.items()}
    raw = {"rainfall_rate": "RR", "width": "WIDTH", "v": "VEL", "lwc": "LWC", "Zh": "Ze", "pia": "PIA"}
    parts = case["parts"] if case["how"] != "file" else 1
    cuts = [0, *sorted(r.integers(0, n + 1, parts - 1).tolist()), n]
    src = t.path("in")
    os.mkdir(src)
    files = []
    for j in range(parts):
        a, b = cuts[j], cuts[j + 1]
        if a == b:
            continue
        fn = os.path.join(src, f"20230517_{j:02d}0000.nc")
        files.append(fn)
        with netCDF4.Dataset(fn, "w") as nc:
            nc.createDimension("time", b - a)
            nc.createDimension("range", m)
            nc.createDimension("string_length", 32)
            nc.instrument_name = "METEK MRR Pro 1.1.23, ID: MRRPro27, METEK Serial Number:  0511107367, Software:  MRR Pro 1.1.23"
            put(nc, "time", ("time",), [S1970 + x for x in tt[a:b]], "f8", units="seconds since 1970-01-01T00:00")
            put(nc, "range", ("range",), gate, units="meters")
            put(nc, "elevation", ("time",), case["el"], units="degrees")
            put(nc, "latitude", (), 51.3, "f8", units="degrees_north")
            put(nc, "longitude", (), 12.4, "f8", units="degrees_east")
            put(nc, "altitude", (), 100.0, "f8", units="meters")
            for k, v in f.items():
                put(nc, raw[k], ("time", "range"), v[a:b], "f4" if k == "v" else "f8", np.nan)
    if case["junk"] and case["how"] != "file":
        with open(os.path.join(src, "20230517_990000.nc"), "w") as fh:
            fh.write("junk")
        if case["how"] == "list":
            files.append(os.path.join(src, "20230517_990000.nc"))
    arg = {"file": files[0], "list": files, "dir": src}[case["how"]]
    out = t.path("o.nc")
    date = {"date": DATE, "str": DATE.isoformat(), "none": None}[case["date"]]
    res = run(t, mrr2nc, arg, out, site(case), None, date)
    ok = [case["date"] == "none" or 0 <= x < 86400 for x in tt]
    if not any(ok):
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"no data of the date: {res!r}")
        return
    if isinstance(res, Exception):
        t.fail(f"{type(res).__name__}: {res}")
    sc = {"rainfall_rate": 1 / 3.6e6, "v": -1, "lwc": 1e-3}
    profs = [{"s": tt[i], "ok": ok[i], **{k: f[k][i] * sc.get(k, 1) for k in f}} for i in range(n)]
    verify(t, out, profs, gate - gate[0], ["Zh", "v", "width", "pia"], zen=90 - case["el"], domain="rain-radar")
    verify(t, out, profs, gate - gate[0], ["rainfall_rate", "lwc"], zen=90 - case["el"], tol=1e-11, domain="rain-radar")
    with netCDF4.Dataset(out) as nc:
        t.eq(nc.serial_number, "0511107367", "serial number")
        t.same(np.unique(t.var(nc, "zenith_angle")[:].compressed()), np.array([90 - case["el"]]), "zenith angle")
    t.mark(tt != sorted(set(tt)) or not all(ok))


# ------------------------------------------------------------------------ RPG-FMCW
@st.composite
def rpg_case(draw):
    nf = draw(st.integers(1, 3))
    files = []
    for j in range(nf):
        files.append({"t": draw(times(steps=(1, 10, 600), counts=(1, 2, 3, 5), kinds=("sorted", "sorted", "sorted", "shuffled", "dup", "mixed"))),
                      "kind": draw(st.sampled_from(["ok", "ok", "ok", "ok", "ok", "ok", "cut", "junk"])), "grid": draw(st.sampled_from([0, 0, 0, 1, 2])), "chirps": draw(st.integers(1, 3))})
    return {"files": files, "m": draw(st.sampled_from([4, 5, 8, 16])), "ver": draw(st.sampled_from([2.0, 3.5, 4.0, 4.0])), "pol": draw(st.sampled_from([0, 1, 1, 2])),
            "freq": draw(st.sampled_from([94.0, 94.05, 35.0])), "zen": draw(st.sampled_from(["0", "0", "tilt", "some", "bad", "masked"])), "seed": draw(st.integers(0, 2**31)),
            "samegrid": draw(st.sampled_from([1, 1, 0])), "date": draw(st.sampled_from(["date", "str", "none"])), "ms": draw(st.booleans()), "ext": draw(st.sampled_from(["LV1", "LV1", "lv1"])), "meta": {}}


CODE = {2.0: 789347, 3.5: 889347, 4.0: 889348}


def rpg_bytes(case, recs, gate, starts, nyq, gps):
    ver, pol, m, nch = case["ver"], case["pol"], len(gate), len(starts)
    h = b""
    if ver > 2:
        tm = [x["t"] for x in recs]
        h += struct.pack("<II", min(tm), max(tm))
    h += struct.pack("<i", 7) + struct.pack("<i", 0 if pol == 0 else 1) + b"prog\0" + b"cust\0"
    h += struct.pack("<5f", case["freq"], 0.298, 0.25, 10**5.1, 0.85) + struct.pack("<b", pol) + struct.pack("<f", 3.5) + struct.pack("<ff", *gps)
    h += struct.pack("<5i", 100, m, 2, 1, nch)
    h += np.asarray(gate, "<f4").tobytes() + np.array([0, 100], "<f4").tobytes() + np.array([0], "<f4").tobytes()
    h += np.full(nch, 256, "<i4").tobytes() + np.asarray(starts, "<i4").tobytes() + np.full(nch, 5000, "<i4").tobytes() + np.full(nch, 0.5, "<f4").tobytes() + np.full(nch, 30.0, "<f4").tobytes()
    h += np.asarray(nyq, "<f4").tobytes()
    if ver > 2:
        h += struct.pack("<5b", 0, 1, 1, 1, 4) + struct.pack("<HH", 1000, 554) + struct.pack("<f", 6.0)
        if ver > 3.5:
            h += struct.pack("<i", 12) + b"\0" * (4 * 24) + b"\0" * (4 * 10000)
    body = struct.pack("<i", len(recs))
    for x in recs:
        s = struct.pack("<I", x["t"]) + struct.pack("<i", x["ms"]) + struct.pack("<b", x["qf"])
        s += np.array([x[k] for k in ("RR", "RH", "T", "P", "WS", "WD", "V", "TB", "LWP", "IF", "EL", "AZ", "ST", "TP", "TT", "RT", "PC")], "<f4").tobytes()
        s += b"\0" * 4 * (3 + 2 + 2 * 1 + m + (m if pol > 0 else 0))
        s += x["is"].astype("i1").tobytes()
        for g in range(m):
            if x["is"][g]:
                a = [x["Zh"][g], x["v"][g], x["width"][g], x["skewness"][g], x["kurtosis"][g]]
                if pol > 0:
                    a += [x["p1"][g], x["p2"][g], x["p3"][g]]
                if pol == 2:
                    a += [0.0, x["sldr"][g], x["srho_hv"][g], x["kdp"][g], x["differential_attenuation"][g]]
                s += np.array(a, "<f4").tobytes()
        body += struct.pack("<i", len(s)) + s
    return struct.pack("<ii", CODE[ver], len(h)) + h + body


@c.sub("rpg", rpg_case(), quick=200, shards=2)
def _(case, t):
    r = rng(case["seed"])
    pol = case["pol"]
    names2 = ["Zh", "v", "width", "skewness", "kurtosis"]
    if pol:
        names2 += ["p1", "p2", "p3"]
    if pol == 2:
        names2 += ["sldr", "srho_hv", "kdp", "differential_attenuation"]
    outname = {"p1": "ldr" if pol == 1 else "zdr", "p2": "rho_cx" if pol == 1 else "rho_hv", "p3": "phi_cx" if pol == 1 else "phi_dp"}
    src = t.path("in")
    os.mkdir(src)
    gps = (60.25, 24.75)
    used = []
    for j, fl in enumerate(case["files"]):
        m = case["m"]
        grid = 0 if case["samegrid"] else fl["grid"]
        if grid == 0:
            gate = 100.0 + 32.0 * np.arange(m)
        elif grid == 1:
            gate = 100.0 + 48.0 * np.arange(m)
        else:
            gate = 116.0 + 40.0 * np.arange(m - 2)
        gate = gate.astype("f4").astype(float)
        m = len(gate)
        nch = min(fl["chirps"], m) if not case["samegrid"] or j == 0 else min(case["files"][0]["chirps"], m)
        if case["samegrid"]:
            starts = np.arange(nch) * (m // nch)
            nyq = 12.0 - 2 * np.arange(nch)
        else:
            starts = np.arange(nch) * (m // nch)
            nyq = 12.0 - 2 * np.arange(nch) - j * 0.5
        tt = [x if x % 86400 else x + 1 for x in fl["t"]]
        if case["date"] == "none":
            tt = [x % 86400 for x in tt]
        recs = []
        for i, s in enumerate(tt):
            x = {"t": S2001 + s, "ms": int((s * 37) % 1000) if case["ms"] else 0, "qf": int(r.integers(0, 8)), "s": s}
            for k, lo, hi in (("RR", 0, 20), ("RH", 1, 100), ("T", 250, 300), ("P", 900, 1030), ("WS", 0, 90), ("WD", 0, 360), ("V", 0, 2), ("TB", 100, 300), ("LWP", -50, 900), ("IF", 0, 9),
                              ("AZ", 0, 360), ("ST", 0, 3), ("TP", 1, 2), ("TT", 290, 310), ("RT", 290, 310), ("PC", 290, 310)):
                x[k] = float(np.float32(r.uniform(lo, hi)))
            for k in ("T", "P"):
                if r.random() < 0.1:
                    x[k] = float(r.choice([0, -999]))
            rz = rng(case["seed"] + s % 86400)
            zen = {"0": 0.0, "tilt": 4.5, "some": float(rz.choice([0.0, 0.0, 0.0, 5.5, -20.0, 45.0])), "bad": 45.0, "masked": 0.03125}[case["zen"]]
            x["EL"] = 90.0 - zen
            x["is"] = r.random(m) < 0.85
            x["Zh"] = 10 ** (r.uniform(-50, 20, m) / 10)
            x["v"] = r.uniform(-9, 9, m)
            x["width"] = away(r, [0.005], 0.001, 1.5, m, 1e-4)
            tiny = r.random(m) < 0.15
            x["width"][tiny] = r.choice([0.001, 0.0049, 0.0051, 0.01], tiny.sum())
            x["skewness"] = r.uniform(0.1, 2, m) * r.choice([-1, 1], m)
            x["kurtosis"] = r.uniform(0.5, 4, m)
            x["p1"] = away(r, [-35], -45, -3, m, 0.01)
            x["p2"] = r.uniform(0.1, 1, m)
            x["p3"] = r.uniform(0.1, 3, m)
            x["sldr"] = away(r, [-40], -50, -3, m, 0.01)
            x["srho_hv"], x["kdp"], x["differential_attenuation"] = r.uniform(0.1, 1, m), r.uniform(0.1, 1, m), r.uniform(0.1, 1, m)
            for k in names2:
                x[k] = x[k].astype("f4").astype(float)
                sp = r.random(m) < (0.06 if k != "width" else 0)
                x[k][sp] = r.choice([-999.0, 0.0, float(np.float32(1e-10))], sp.sum())
            recs.append(x)
        b = rpg_bytes(case, recs, gate, starts, nyq, gps)
        name = f"23051{7}_{j:02d}0000_P01_ZEN.{case['ext']}"
        if fl["kind"] == "cut":
            b = b[:20]
        if fl["kind"] == "junk":
            b = b"\x01\x02\x03\x04" + b[4:]
        with open(os.path.join(src, name), "wb") as fh:
            fh.write(b)
        if fl["kind"] == "ok" and (case["date"] == "none" or all(0 <= s < 86400 for s in tt)):
            used.append((name, recs, gate, starts, nyq))
    out = t.path("o.nc")
    date = {"date": DATE, "str": DATE.isoformat(), "none": None}[case["date"]]
    meta = site(case)
    try:
        res = rpg2nc(src, out, meta, None, date)
    except (CloudnetException, ValueError) as e:
        res = e
    if not used:
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"no usable file: {res!r}")
        t.label("no usable file")
        return
    allrec = [x for u in used for x in u[1]]
    zens = {}
    for x in allrec:
        zens[x["s"] + x["ms"] / 1000] = 90 - x["EL"]
    okz = [z for z in zens.values() if -5 < z < 15]
    if not okz:
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"no vertical profile: {res!r}")
        return
    med = float(np.median(okz))
    if not any(abs(z - med) < 0.1 for z in zens.values()):
        return
    if isinstance(res, Exception):
        t.fail(f"{type(res).__name__}: {res}")
    t.eq([os.path.basename(str(f)) for f in res[1]], [u[0] for u in used], "files used")
    target = max((u[2] for u in used), key=lambda g: g[-1])
    profs = []
    one = {"rainfall_rate": ("RR", 1 / 3.6e6), "relative_humidity": ("RH", 0.01), "air_temperature": ("T", 1), "air_pressure": ("P", 100), "wind_speed": ("WS", 1 / 3.6), "wind_direction": ("WD", 1),
           "lwp": ("LWP", 1e-3), "azimuth_angle": ("AZ", 1), "voltage": ("V", 1), "brightness_temperature": ("TB", 1), "if_power": ("IF", 1), "transmitted_power": ("TP", 1),
           "transmitter_temperature": ("TT", 1), "receiver_temperature": ("RT", 1), "pc_temperature": ("PC", 1)}
    for name, recs, gate, starts, nyq in used:
        for x in recs:
            p = {"s": x["s"] + x["ms"] / 1000, "ok": abs((90 - x["EL"]) - med) < 0.1}
            w = np.where(x["is"], x["width"], 0)
            wbad = (w < 0.005) & (w != 0) & (np.abs(w + 999) > 1) & (w > 1e-7)
            for k in names2:
                o = outname.get(k, k)
                v = np.where(x["is"], x[k], 0.0)
                msk = (v == 0) | (v == -999) | (np.abs(v) < 1e-7)
                if o == "ldr":
                    msk |= v <= -35
                if o == "sldr":
                    msk |= v <= -40
                if o in ("Zh", "v", "ldr", "width", "sldr"):
                    msk |= wbad
                if o == "Zh":
                    v = 10 * np.log10(np.where(msk, 1, v))
                a = ma.array(v, mask=msk)
                if not np.array_equal(gate, target):
                    b = ma.masked_all(len(target))
                    amb = False
                    for q, z in enumerate(target):
                        if gate[0] <= z <= gate[-1]:
                            d = np.abs(gate - z)
                            b[q] = a[int(np.argmin(d))]
                    a = b
                p[o] = a
            for o, (k, fac) in one.items():
                v = x[k]
                p[o] = ma.array(np.float32(v * fac), mask=k in ("T", "P") and v in (0, -999))
            # nyquist velocity per gate
            ny = np.empty(len(target))
            if np.array_equal(gate, target):
                ss = starts
            else:
                ss = [int(np.argmin(np.abs(target - gate[q]))) for q in starts]
                ss[0] = 0
            for a_, b_, v_ in zip(ss, [*ss[1:], len(target)], nyq):
                ny[a_:b_] = v_
            p["nyquist_velocity"] = ma.array(ny)
            profs.append(p)
    ties = False
    for _, _, gate, starts, _ in used:
        if not np.array_equal(gate, target):
            for z in target:
                d = np.sort(np.abs(gate - z))
                ties |= len(d) > 1 and abs(d[0] - d[1]) < 1e-3
            for q in starts:
                d = np.sort(np.abs(target - gate[q]))
                ties |= abs(d[0] - d[1]) < 1e-3
    if ties:
        t.label("ties in the range grids (skipped)")
        return
    zk = sorted((p["s"] for p in profs if p["ok"]))
    zz = [zens[s] for s in sorted(set(zk))]
    verify(t, out, profs, target, [outname.get(k, k) for k in names2] + ["nyquist_velocity"], one_d=list(one), zen=float(np.median(zz)))
    with netCDF4.Dataset(out) as nc:
        t.same(np.unique(t.var(nc, "radar_frequency")[:].compressed()), np.array([case["freq"]]), "radar frequency")
        t.same(np.unique(t.var(nc, "antenna_gain")[:].compressed()), np.array([51.0]), "antenna gain")
        t.same(np.unique(t.var(nc, "latitude")[:].compressed()), np.array([gps[0]]), "latitude")
        t.same(np.unique(t.var(nc, "longitude")[:].compressed()), np.array([gps[1]]), "longitude")
    tl = [p["s"] for p in profs]
    t.mark(len(used) > 1 or tl != sorted(set(tl)))
    t.label(f"v{case['ver']} pol{pol}")
    t.label("range grids differ", any(not np.array_equal(u[2], target) for u in used))


c.main()
