import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import binascii
import datetime

import netCDF4
from hypothesis import strategies as st
from numpy import ma
from scipy.ndimage import gaussian_filter

from cloudnetpy.exceptions import CloudnetException, InconsistentDataError, ValidTimeStampError
from cloudnetpy.instruments import ceilo2nc, pollyxt2nc
from gen import times

c = Check(
    "P22",
    "Raw files of CHM 15k (new and old firmware), CL61, DA10 (netCDF), CL31, CL51, CS135, CT25K (text messages with checksums) and PollyXT (pairs of netCDF files) are generated with noise, clouds, aerosol, fog, negative runs, "
    "silent tops and sunlight, arbitrary time orders, dates, calibration factors and tilt; every output pixel is compared with the calibrated raw value and with an independent reference of the noise screening and smoothing.  "
    "Non-trivial: the screened field keeps some pixels and masks others.",
    ["pixels whose signal-to-noise ratio is within 0.1 % of the limit are not judged", "profiles with equal timestamps are identical", "raw netCDF fields have no missing pixels"],
)
DATE = datetime.date(2023, 5, 17)
MIDNIGHT = datetime.datetime(2023, 5, 17)
ALT = 87.0


def site(case):
    s = {"name": "Test", "altitude": ALT, "latitude": 60.5, "longitude": 24.5}
    if case["cal"] is not None:
        s["calibration_factor"] = case["cal"]
    if case["rc"] is not None:
        s["range_corrected"] = case["rc"]
    return s


FEATURES = ["cloud", "cloud", "aerosol", "fog", "neg", "neg", "quiet", "sun", "strongnoise", "speckle", "saturated"]


@st.composite
def lidar_case(draw, kinds=("sorted", "sorted", "shuffled", "dup", "mixed"), sizes=(40, 45, 64, 110, 205), res=(10, 15, 30, 100), counts=(1, 2, 3, 5, 8, 20)):
    date = draw(st.sampled_from(["date", "str", "none"]))
    t = draw(times(counts=counts, steps=(5, 15, 30, 60, 600), kinds=("sorted",) if date == "none" else kinds))
    return {"t": t, "m": draw(st.sampled_from(sizes)), "dr": draw(st.sampled_from(res)), "cal": draw(st.sampled_from([None, None, 1, 1.0, 2.5, 0.7])), "rc": draw(st.sampled_from([None, True, False])),
            "tilt": draw(st.sampled_from([0, 3, 4, 12, 45])), "noise": draw(st.sampled_from([-10, -9, -8.5, -8, -7.5, -7])), "feat": draw(st.lists(st.sampled_from(FEATURES), max_size=4)),
            "p": draw(st.sampled_from([1, 1, 0.5])), "date": date, "seed": draw(st.integers(0, 2**31))}


def scene(case, rg, seconds):
    """Range-corrected backscatter (sr-1 m-1), one profile per distinct time."""
    m = len(rg)
    r2 = (rg * 1e-3) ** 2
    out = []
    for s in seconds:
        r = rng((case["seed"] + s * 7919) % 2**32)
        u = r.normal(0, 10.0 ** case["noise"], m)
        for k in case["feat"]:
            if r.random() > case["p"]:
                continue
            g = np.arange(m)
            if k == "cloud":
                u += 10 ** r.uniform(-6.5, -4) * np.exp(-((g - r.integers(0, m)) / r.uniform(0.5, 4)) ** 2) / r2
            elif k == "aerosol":
                u += 10 ** r.uniform(-8, -5.5) * np.exp(-rg / r.uniform(300, 3000)) / r2
            elif k == "fog":
                u[:20] = r.uniform(2e-5, 1e-4, len(u[:20])) / r2[:20]
            elif k == "neg":
                i, n = int(r.integers(0, min(m, 100))), int(r.choice([4, 5, 6, 7, 19, 20, 21, 22]))
                u[i:i + n] = -np.abs(u[i:i + n]) - 1e-12
                if i + n < m:
                    u[i + n] = abs(u[i + n])
            elif k == "quiet":
                u[-(m // 8 + 2):] = r.choice([0.0, 1e-9])
            elif k == "sun":
                u += r.uniform(0.2, 1, m) * 10 ** r.uniform(-8, -6) * (rg > 9000)
            elif k == "strongnoise":
                u += r.normal(0, 3e-7, m)
            elif k == "speckle":
                u[r.integers(0, m, 5)] = 10 ** r.uniform(-7, -4, 5)
            elif k == "saturated":
                u[0] = 1.2e-3 / r2[0]
        out.append(u * r2)
    return np.array(out)


def screen(x, raw, rg, nmin, nneg, corrected, alt_limit, only_snr=False):
    """Independent noise screening.  Returns (mask, ambiguous)."""
    n, m = x.shape
    r2 = ((rg * 1e-3) ** 2).astype(float)
    gates = rg < alt_limit
    u = x.copy()
    u[:, gates] = (u[:, gates] / r2[gates]).astype(x.dtype)
    ntop = round(m * 0.1)
    mask = np.zeros(x.shape, bool)
    amb = np.zeros(x.shape, bool)
    for i in range(n):
        p = u[i].astype(float)
        noise = max(np.std(p[m - ntop:]), nmin)
        # long runs of negative values in the lowest gates
        run, first = 0, None
        for g in range(5, min(100, m)):
            run = run + 1 if p[g] < 0 else 0
            if run > nneg:
                first = g
                break
        if first is not None:
            above = np.arange(m) >= first
            mask[i] |= above & (p < 8e-6)
            amb[i] |= above & (np.abs(p - 8e-6) < 8e-9)
            noise = 1e-12
        # saturated profiles
        tot = np.sum(np.abs(raw[i, :20].astype(float)))
        var = np.var(raw[i, m - ntop:].astype(float))
        if abs(tot - 1e-3) < 1e-6 or (0.9e-15 < var < 1.1e-15):
            amb[i] = True
        if tot > 1e-3 or var < 1e-15:
            q = np.where(mask[i], -np.inf, p)
            k = int(np.argmax(q))
            if np.sort(q)[-2] > q[k] * (1 - 1e-5) if q[k] > 0 else True:
                amb[i] = True
            above = np.arange(m) >= k
            mask[i] |= above & (p < 2e-6)
            amb[i] |= above & (np.abs(p - 2e-6) < 2e-9)
            noise = 1e-12
        snr = p / noise
        if not corrected:
            snr[gates] *= 6
        mask[i] |= snr < 5
        amb[i] |= np.abs(snr - 5) < 5e-3
    return mask, amb, u


def reference(raw, hours, rg, nmin, nsmooth, nneg, corrected, alt_limit):
    m1, a1, u = screen(raw, raw, rg, nmin, nneg, corrected, alt_limit)
    strong = raw > 1e-6
    a1 = a1 | (np.abs(raw - 1e-6) < 1e-10)
    sig = (1 / (np.median(np.diff(hours)) * 60), 10 / np.median(np.diff(rg)))
    res = []
    # a pixel that is strong but screened may or may not be smoothed like a cloud
    for cloud in (strong & ~m1, (strong & ~m1) | (m1 & (u > 1e-6)), strong & ~m1 & ~a1, (strong & ~m1) | (strong & a1)):
        x = raw.copy()
        x[cloud] = 1e-6
        x = gaussian_filter(x, sig)
        x[cloud] = np.where(m1, u, raw)[cloud]
        res.append((*screen(x, raw, rg, nsmooth, nneg, corrected, alt_limit)[:2], x))
    m2, a2, x = res[0]
    size = gaussian_filter(np.abs(raw), sig)
    for mm, aa, xx in res[1:]:
        a2 = a2 | aa | (mm != m2) | (np.abs(xx - x) > 1e-5 * np.abs(x))
    return m1, a1, m2, a2, x, size


def sunbeam(mask, amb, rg):
    """Profiles whose high gates are full of signal; None if not decidable."""
    high = rg > 10000
    if not high.any():
        return np.ones(len(mask), bool)
    k = int(high.sum()) // 20
    if k == 0:
        return np.ones(len(mask), bool)
    counts = []
    for d in (~mask & ~amb, ~mask | amb):
        b = d[:, high][:, : 20 * k].reshape(len(mask), 20, k)
        counts.append(b.any(axis=2).sum(axis=1))
    if np.any((counts[0] < 15) != (counts[1] < 15)):
        return None
    return counts[0] < 15


def select(case, vaisala):
    """Seconds of the day expected in the output, or None if there is no data."""
    t = case["t"]
    if case["date"] != "none":
        s = sorted({x for x in t if 0 <= x < 86400})
    elif vaisala:
        day = min(t) // 86400
        s = sorted({x for x in t if x // 86400 == day})
    else:
        s = list(t)
    return s


def judge(case, t, res, out, sel, rg, raw, par, model, source, wavelength, zenith, use_smooth, extra=None, tday=0, tol_t=3.0):
    """par: noise_min, noise_smooth_min, n_negatives, alt_limit."""
    if len(sel) < 2:
        t.ok(isinstance(res, ValidTimeStampError) or (len(case["t"]) < 2 and isinstance(res, Exception)), lambda: f"fewer than two profiles: {res!r}")
        return
    nmin, nsm, nneg, alt_limit = par
    rc = case["rc"] is not False
    if rc:
        alt_limit = 1e12
    hours = np.array([s / 3600 for s in sel])
    m1, a1, m2, a2, x, size = reference(raw, hours, rg, nmin, nsm, nneg, rc, alt_limit)
    if use_smooth and rc:
        bm, ba = m2 | (raw <= 0), a2
    else:
        bm, ba = m1, a1
    keep = sunbeam(bm, ba, rg)
    t.label("features " + "+".join(sorted(set(case["feat"])))[:30])
    if keep is None:
        t.label("undecidable sunbeam")
        return
    if not keep.any():
        t.label("all profiles are sunbeams")
        if isinstance(res, Exception):
            t.ok(isinstance(res, CloudnetException), lambda: f"no valid profiles: {res!r}")
        else:
            t.fail("a file was written although there are no valid profiles")
        return
    if isinstance(res, Exception):
        t.fail(f"{type(res).__name__}: {res}")
    with netCDF4.Dataset(out) as nc:
        t.eq((nc.year, nc.month, nc.day), (f"{2023}", "05", f"{17 + tday:02d}"), "date")
        t.eq((nc.cloudnet_file_type, nc.location), ("lidar", "Test"), "global attributes")
        t.eq(nc.source, source, "source")
        t.same(t.var(nc, "time")[:].astype(float) * 3600, np.array(sel)[keep], "time", rtol=0, atol=tol_t if len(sel) else 0)
        t.same(t.var(nc, "range")[:], rg, "range", rtol=1e-6)
        t.same(t.var(nc, "height")[:], ALT + rg * np.cos(np.radians(zenith)), "height", rtol=1e-6)
        t.same(np.unique(t.var(nc, "zenith_angle")[:].compressed()), np.array([zenith]), "zenith angle", rtol=1e-6)
        t.same(t.var(nc, "wavelength")[:], wavelength, "wavelength")
        for k, v in (("altitude", ALT), ("latitude", 60.5), ("longitude", 24.5)):
            t.same(np.unique(np.atleast_1d(t.var(nc, k)[:])), np.array([v]), k)
        braw = t.var(nc, "beta_raw")[:]
        t.same(braw, raw[keep], "beta_raw", rtol=2e-6, atol=1e-20)
        beta, smooth = t.var(nc, "beta")[:], t.var(nc, "beta_smooth")[:]
        for k in ("beta", "beta_smooth"):
            t.ok("SNR threshold applied: 5" in nc[k].comment, f"comment of {k}")
        gm, gs = ma.getmaskarray(beta), ma.getmaskarray(smooth)
        for name, got, exp, amb in (("beta", gm, bm[keep], ba[keep]), ("beta_smooth", gs, m2[keep], a2[keep])):
            bad = (got != exp) & ~amb
            t.comparisons += got.size
            if bad.any():
                i, j = np.argwhere(bad)[0]
                t.fail(f"{name}[{i},{j}] is {'masked' if got[i, j] else 'present'}, expected the opposite ({int(bad.sum())} pixels differ); raw {raw[keep][i, j]:.3e}")
        d = np.abs(beta.data - raw[keep]) > 2e-5 * np.abs(raw[keep])
        t.ok(not np.any(d & ~gm), "an unscreened pixel of beta differs from beta_raw")
        d = np.abs(smooth.data - x[keep]) > 1e-4 * np.abs(x[keep]) + 1e-5 * size[keep]
        t.ok(not np.any(d & ~gs & ~a2[keep]), "beta_smooth differs from the smoothed field")
        if extra:
            extra(nc, keep, gm)
    if keep.any():
        t.mark(0 < bm[keep].mean() < 1)
        t.label("sunbeam removed", not keep.all())
        if not case["feat"] and rc and len(rg) >= 100 and bm.size >= 1000 and 1e-9 < 10.0 ** case["noise"] and not ba.any():
            t.ok((~gm).mean() < 0.3, lambda: f"noise is reported as signal: {(~gm).mean():.3f}")


def call(t, f, *args):
    try:
        return f(*args)
    except (CloudnetException, RuntimeError, ValueError) as e:
        return e


def date_arg(case):
    return {"date": DATE, "str": DATE.isoformat(), "none": None}[case["date"]]


def day_of(case, sel):
    return 0 if case["date"] != "none" or not sel else sel[0] // 86400


def norm_times(case, span=86400):
    case = dict(case)
    tt = [x if x % 86400 else x + 1 for x in case["t"]]
    if case["date"] == "none":
        tt = [x % 86400 for x in tt]
        tt = sorted(set(tt))
    case["t"] = tt
    return case


# ---------------------------------------------------------------------- netCDF lidars
def put(nc, name, dims, data, dtype="f4", fill=None, **att):
    v = nc.createVariable(name, dtype, dims, fill_value=fill)
    for k, x in att.items():
        v.setncattr(k, x)
    v[...] = data
    return v


@st.composite
def chm_case(draw):
    d = draw(lidar_case())
    d.update({"fw": draw(st.sampled_from(["17.06.1 2.13 1.040 0", "12.12.1 2.13 0.730", "12.12.1 2.13 0.702 1", "12.03.1 2.13 0.556", "int"])), "dev": draw(st.sampled_from(["CHM180154", "CHX150002", None])),
              "nn": draw(st.sampled_from([140, 150, 3685, 3500, 1000])), "key": draw(st.sampled_from(["beta_raw", "beta_att"])), "dt": draw(st.sampled_from(["f4", "f8"])), "model": draw(st.booleans())})
    return d


@c.sub("chm15k", chm_case(), quick=200, shards=3)
def _(case, t):
    case = norm_times(case)
    n, m = len(case["t"]), case["m"]
    edges = (case["dr"] * (1 + np.arange(m))).astype("f4")
    rg = edges.astype(float) - case["dr"] / 2
    beta = scene(case, rg, case["t"])
    cal = case["cal"] if case["cal"] is not None else 3e-12
    old = case["fw"] == "int" or case["fw"].split()[2] < "0.702"
    r = rng(case["seed"] + 5)
    raw = beta / cal
    std = {s: x for s, x in zip(sorted(set(case["t"])), r.uniform(0.5, 2, n))}
    std = np.array([std[s] for s in case["t"]])
    nn = np.full(n, float(case["nn"]))
    if old:
        scale = {140: 1.0, 150: 1.24 ** (-10 / 5), 3685: 1.0, 3500: 1.035 ** 185, 1000: 1.0}[case["nn"]]
        raw = raw / (std / scale)[:, None] / rg**2
    fn = t.path("c.nc")
    with netCDF4.Dataset(fn, "w") as nc:
        nc.createDimension("time", n)
        nc.createDimension("range", m)
        nc.title = "CHM15k Nimbus"
        nc.software_version = np.int32(515) if case["fw"] == "int" else case["fw"]
        nc.source = "CHX990000" if case["dev"] is None else "other"
        if case["dev"]:
            nc.device_name = case["dev"]
        off = (MIDNIGHT - datetime.datetime(1904, 1, 1)).total_seconds()
        put(nc, "time", ("time",), [off + s for s in case["t"]], "f8", units="seconds since 1904-01-01 00:00:00.000 00:00")
        put(nc, "range", ("range",), edges, units="m")
        put(nc, "zenith", ("time",) if case["seed"] % 2 else (), tilts(case) if case["seed"] % 2 else float(case["tilt"]), units="degree")
        put(nc, case["key"], ("time", "range"), raw, case["dt"])
        put(nc, "stddev", ("time",), std)
        put(nc, "nn1" if case["seed"] % 3 else "NN1", ("time",), nn, "f8")
        stored = nc[case["key"]][:].data
    if old:
        val = ma.array(stored)
        val = val * (std.astype("f4") / scale)[:, None]
        val = val * rg**2 * cal
    else:
        val = stored * cal
    val = np.asarray(val).astype(case["dt"])
    sel = select(case, False)
    first = {s: i for i, s in reversed(list(enumerate(case["t"])))}
    out = t.path("o.nc")
    meta = site(case)
    if case["model"]:
        meta["model"] = "chm15k"
    res = call(t, ceilo2nc, fn, out, meta, None, date_arg(case))
    x = case["dev"] is None or case["dev"].startswith("CHX")
    raw = val[[first[s] for s in sel]] if sel else val[:0]
    judge(case, t, res, out, sel, rg, raw, (1e-9, 4e-9, 20 if old else 5, 1e12), "chm", "Lufft CHM15kx" if x else "Lufft CHM15k", 1064, case["tilt"], True, tday=day_of(case, sel))
    t.label("old firmware", old)


@st.composite
def vaisala_nc_case(draw):
    d = draw(lidar_case())
    d.update({"depol": draw(st.sampled_from(["pos", "wide", "zero"])), "has_tilt": draw(st.sampled_from([1, 1, 1, 0])), "model": draw(st.booleans()), "dt": draw(st.sampled_from(["f4", "f8"]))})
    return d


def vaisala_nc(case, t, da10):
    case = norm_times(case)
    n, m = len(case["t"]), case["m"]
    edges = (case["dr"] * np.arange(m)).astype("f4")
    rg = edges.astype(float) + case["dr"] / 2
    beta = scene(case, rg, case["t"])
    cal = case["cal"] if case["cal"] is not None else 1
    r = rng(case["seed"] + 5)
    uniq = sorted(set(case["t"]))
    pp = {s: r.uniform(0.5, 2, m) for s in uniq}
    xx = {s: r.uniform(0.02, 0.9, m) * pp[s] * (r.choice([-1, 0, 1, 3], m) if case["depol"] == "wide" else 1) for s in uniq}
    if case["depol"] == "zero":
        for s in uniq:
            pp[s][r.random(m) < 0.1] = 0
    fn = t.path("live.nc" if da10 or case["model"] or case["seed"] % 2 else "cl61d_live.nc")
    with netCDF4.Dataset(fn, "w") as nc:
        nc.createDimension("profile" if not da10 else "time", n)
        nc.createDimension("range", m)
        d = "time" if da10 else "profile"
        nc.title = "Vaisala Profile Data" if da10 or not fn.endswith("live.nc") or "cl61d" in fn else "CL61D-something"
        nc.instrument_serial_number = "X123"
        off = (MIDNIGHT - datetime.datetime(1970, 1, 1)).total_seconds()
        put(nc, "time", (d,), [off + s for s in case["t"]], "f8", units="seconds since 1970-01-01 00:00:00.000")
        put(nc, "range", ("range",), edges, units="m")
        if case["has_tilt"]:
            put(nc, "tilt_angle", (d,), tilts(case))
        put(nc, "beta_att", (d, "range"), beta / cal, case["dt"])
        put(nc, "p_pol", (d, "range"), np.array([pp[s] for s in case["t"]]))
        put(nc, "x_pol", (d, "range"), np.array([xx[s] for s in case["t"]]))
        stored = nc["beta_att"][:].data
    val = (stored * cal).astype(case["dt"])
    sel = select(case, False)
    first = {s: i for i, s in reversed(list(enumerate(case["t"])))}
    out = t.path("o.nc")
    meta = site(case)
    if case["model"] or da10:
        meta["model"] = "da10" if da10 else "cl61d"
    res = call(t, ceilo2nc, fn, out, meta, None, date_arg(case))
    raw = val[[first[s] for s in sel]] if sel else val[:0]

    def extra(nc, keep, gm):
        t.eq(nc.serial_number, "X123", "serial number")
        if da10:
            return
        p = np.array([pp[s] for s in sel])[keep].astype("f4").astype(float)
        x = np.array([xx[s] for s in sel])[keep].astype("f4").astype(float)
        with np.errstate(all="ignore"):
            d = np.where(p == 0, np.nan, x / np.where(p == 0, 1, p))
        e = ma.masked_invalid(d)
        t.same(t.var(nc, "depolarisation_raw")[:], e, "depolarisation_raw", rtol=1e-5, atol=1e-7)
        got = t.var(nc, "depolarisation")[:]
        em = ma.getmaskarray(e) | (e.filled(0) <= 0) | (e.filled(0) > 1)
        if case["rc"] is not False:
            em = em | gm
        t.eq(bool(np.any(ma.getmaskarray(got) != em)), False, "mask of depolarisation")
        t.same(ma.array(got, mask=em), ma.array(d, mask=em), "depolarisation", rtol=1e-5)

    judge(case, t, res, out, sel, rg, raw, (1e-9, 4e-9, 5, 1e12), "cl61", "Vaisala DA10" if da10 else "Vaisala CL61d", 911 if da10 else 910.55, case["tilt"] if case["has_tilt"] else 3, True, extra, tday=day_of(case, sel))


c.sub("cl61d", vaisala_nc_case(), quick=150, shards=2)(lambda case, t: vaisala_nc(case, t, False))
c.sub("da10", vaisala_nc_case(), quick=80, shards=1)(lambda case, t: vaisala_nc(case, t, True))


# ------------------------------------------------------------------- text ceilometers
def hex5(values, chars):
    off = 1 << (4 * chars)
    return "".join(f"{int(v) % off:0{chars}x}" for v in values)


def cl_message(ts, vals, dr, tilt, cl51, two, style, bad):
    l1 = f"CL02022{6 if cl51 else 1}" if not two else f"CL0202{2}{6 if cl51 else 1}"
    l1 = l1[:6] + ("2" if two else "1") + l1[7:]
    l2 = "00 ///// ///// ///// 000000000080"
    l3 = "  2 261  0 ///  0 ///  0 ///  0 ///" if not cl51 else "  2 261  0 ///  0 ///  0 ///  0 ///     "
    l4 = f"00100 {dr:02d} {len(vals):04d} 098 +24 100 {tilt:02d} 0003 L0016HN15 002"
    l5 = hex5(vals, 5)
    body = l1 + "\x02\r\n" + l2 + "\r\n" + (l3 + "\r\n" if two else "") + l4 + "\r\n" + l5 + "\r\n\x03"
    crc = binascii.crc_hqx(body.encode(), 0xFFFF) ^ 0xFFFF
    if bad:
        crc ^= 0x1234
    stamp = ts.strftime("-%Y-%m-%d %H:%M:%S\r\n") if style == 0 else ts.strftime("%Y-%m-%d %H:%M:%S,")
    return stamp + "\x01" + body + f"{crc:04x}\x04\r\n"


def cs_message(ts, vals, dr, tilt, two, style, bad):
    l1 = "CS0007" + ("004" if two else "002")
    l2 = "1W 097 01773 ///// ///// ///// 80c000000000"
    l3 = "  1 0766  0 ////  0 ////  0 ////  0 ////"
    l4 = f"00100 {dr:02d} {len(vals):04d} 100 +39 {tilt:02d} 0030 0020 30 000"
    l5 = hex5(vals, 5)
    body = l1 + "\x02\r\n" + l2 + "\r\n" + (l3 + "\r\n" if two else "") + l4 + "\r\n" + l5 + "\r\n\x03"
    crc = binascii.crc_hqx(body.encode(), 0xFFFF) ^ 0xFFFF
    if bad:
        crc ^= 0x1234
    stamp = ts.strftime("%Y-%m-%dT%H:%M:%S.%f,") if style == 0 else ts.strftime("%%%%%% %Y/%m/%d %H:%M:%S %%%%%%\r\n")
    return stamp + "\x01" + body + f"{crc:04x}\x04\r\n"


def ct_message(ts, vals, tilt):
    o = ts.strftime("-%Y-%m-%d %H:%M:%S\r\n") + "\x01CT02072\x02\r\n10 01220 ///// ///// 00000100\r\n" + f"100 N  99 +22  85  200 {tilt:+03d}    6 LF7HN1 172\r\n"
    for i in range(16):
        o += f"{16 * i:03d}" + hex5(vals[16 * i:16 * i + 16], 4).upper() + "\r\n"
    return o + "  8 104  0 ///  0 ///  0 ///\r\n\x03\r\n"


def tilts(case, usable=None):
    """Zenith angle of every record: one outlier, where at least three times of each day are left for the median."""
    n = len(case["t"])
    usable = range(n) if usable is None else usable
    days = {}
    for i in usable:
        days.setdefault(case["t"][i] // 86400, set()).add(case["t"][i])
    out = np.full(n, float(case["tilt"]))
    if case["seed"] % 2 and days and min(len(x) for x in days.values()) >= 3:
        k = [i for i in usable]
        out[k[case["seed"] % len(k) if case["seed"] % 4 == 1 else 0]] += 25
    return out


@st.composite
def text_case(draw, sizes, res):
    d = draw(lidar_case(sizes=sizes, res=res, counts=(1, 2, 3, 5, 8, 20, min(sizes)) if min(sizes) <= 64 else (1, 2, 3, 5, 8, 20)))
    if len(d["t"]) == min(sizes):  # as many profiles as gates
        d["m"] = len(d["t"])
    d.update({"two": draw(st.booleans()), "style": draw(st.sampled_from([0, 0, 1])), "bad": draw(st.lists(st.integers(0, 7), max_size=2)), "model": draw(st.booleans()), "head": draw(st.booleans())})
    return d


def text_lidar(case, t, kind):
    case = norm_times(case)
    if kind == "ct25k":
        case["dr"] = 30
        case["t"] = sorted(set(case["t"]))
    n = len(case["t"])
    cl51 = kind == "cl" and case["m"] >= 1540
    m = 256 if kind == "ct25k" else case["m"]
    dr = case["dr"]
    rg = dr * (np.arange(m) + 0.5)
    beta = scene(case, rg, case["t"])
    q = 1e-7 if kind == "ct25k" else 1e-8
    lim = 32767 if kind == "ct25k" else 524287
    cal = case["cal"] if case["cal"] is not None else 1.0
    vals = np.clip(np.round(beta / cal / q), -lim, lim)
    txt = "[File header]\r\n" if case["head"] else ""
    good = []
    ta = tilts(case, [i for i in range(n) if i not in case["bad"] or kind == "ct25k"]).astype(int)
    for i, s in enumerate(case["t"]):
        ts = MIDNIGHT + datetime.timedelta(seconds=s)
        bad = i in case["bad"] and kind != "ct25k"
        if kind == "cl":
            txt += cl_message(ts, vals[i], dr, ta[i], cl51, case["two"], case["style"], bad)
        elif kind == "cs135":
            txt += cs_message(ts, vals[i], dr, ta[i], case["two"], case["style"], bad)
        else:
            txt += ct_message(ts, vals[i], ta[i])
        if not bad:
            good.append(i)
    fn = t.path("c.dat")
    with open(fn, "wb") as fh:
        fh.write(txt.encode())
    meta = site(case)
    if case["model"] or kind == "cs135" or case["style"]:
        meta["model"] = {"cl": "cl51" if cl51 else "cl31"}.get(kind, kind)
    out = t.path("o.nc")
    res = call(t, ceilo2nc, fn, out, meta, None, date_arg(case))
    if len(good) < n:
        t.label("messages with wrong checksum")
    if not good:
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"no valid message: {res!r}")
        return
    sub = dict(case, t=[case["t"][i] for i in good])
    sel = select(sub, True)
    first = {case["t"][i]: i for i in reversed(good)}
    raw = np.array([vals[first[s]] * 1e-8 * (1 if kind != "ct25k" else 10) * cal for s in sel])
    if kind == "ct25k":
        judge_ct(sub, t, res, out, sel, rg, raw)
        return
    par = {"cl": (3.1e-8, 1.1e-8, 5 if cl51 else 20, 2400.0), "cs135": (1e-9, 4e-9, 5, 1e12)}[kind]
    src = {"cl": "Vaisala CL51" if cl51 else "Vaisala CL31", "cs135": "Campbell Scientific CS135"}[kind]
    judge(sub, t, res, out, sel, rg, raw, par, kind, src, 905 if kind == "cs135" else 910, case["tilt"], kind == "cl", tday=day_of(sub, sel))
    t.label(src)


def judge_ct(case, t, res, out, sel, rg, raw):
    """CT25K: screening is done by another package; only what must hold for any screening."""
    if len(sel) < 2 or len(set(case["t"])) < 2:
        return
    if isinstance(res, Exception):
        t.fail(f"{type(res).__name__}: {res}")
    with netCDF4.Dataset(out) as nc:
        t.eq((nc.year, nc.month, nc.day, nc.source), ("2023", "05", f"{17 + day_of(case, sel):02d}", "Vaisala CT25k"), "attributes")
        got = t.var(nc, "time")[:].astype(float) * 3600
        sel = np.array(sel)
        t.same(got, sel, "time", rtol=0, atol=3)
        t.same(t.var(nc, "range")[:], rg, "range")
        t.same(t.var(nc, "height")[:], ALT + rg * np.cos(np.radians(case["tilt"])), "height", rtol=1e-6)
        b, a = t.var(nc, "beta")[:], t.var(nc, "beta_raw")[:]
        if case["rc"] is not False:
            t.same(a, raw, "beta_raw", rtol=1e-5, atol=1e-15)
        t.ok(not np.any(~ma.getmaskarray(b) & (np.abs(b.data - a.data) > 1e-6 * np.abs(a.data))), "beta differs from beta_raw")
        t.ok(not np.any(~ma.getmaskarray(b) & (a.data < 0)), "negative backscatter is kept")
        t.mark(0 < ma.getmaskarray(b).mean() < 1)


c.sub("cl", text_case((64, 110, 205, 770, 1540), (10, 15, 30, 99)), quick=150, shards=3)(lambda case, t: text_lidar(case, t, "cl"))
c.sub("cs135", text_case((64, 110, 205), (10, 15, 30, 99)), quick=80, shards=1)(lambda case, t: text_lidar(case, t, "cs135"))
c.sub("ct25k", text_case((256,), (30,)), quick=60, shards=1)(lambda case, t: text_lidar(case, t, "ct25k"))


# --------------------------------------------------------------------------- PollyXT
@st.composite
def polly_case(draw):
    nf = draw(st.integers(1, 3))
    d = {"files": [{"t": draw(times(steps=(30, 300), counts=(1, 2, 3, 6), kinds=("sorted", "sorted", "shuffled", "dup", "mixed"))), "shift": draw(st.sampled_from([0, 0, 0, 0, 1])),
                    "grid": draw(st.sampled_from([0, 0, 0, 0, 1])), "nosnr": draw(st.sampled_from([0, 0, 0, 0, 1])), "calib": draw(st.sampled_from([1.5e13, 2e13]))} for _ in range(nf)],
         "chan": draw(st.sampled_from(["1064", "1064", "532", "355", "none"])), "dead": draw(st.sampled_from(["zero", "masked"])), "m": draw(st.sampled_from([3, 10, 40])), "dr": 7.5,
         "snr": draw(st.sampled_from([None, None, 5, 0])), "zen": draw(st.sampled_from([None, None, 6, 0])), "how": draw(st.sampled_from(["dir", "list"])), "odd": draw(st.sampled_from([0, 0, 0, 0, 1])),
         "date": draw(st.sampled_from(["date", "str", "none"])), "seed": draw(st.integers(0, 2**31)), "first": draw(st.booleans())}
    if d["date"] == "none":
        for f in d["files"]:
            f["t"] = sorted(f["t"])
    return d


def polly_write(t, case, src):
    r = rng(case["seed"])
    profs, names, ranges = [], [], []
    dead = {"1064": [], "532": ["1064"], "355": ["1064", "532"], "none": ["1064", "532", "355"]}[case["chan"]]
    off = (MIDNIGHT - datetime.datetime(1970, 1, 1)).total_seconds()
    for j, f in enumerate(case["files"]):
        m = case["m"] + f["grid"]
        rg = case["dr"] * (1 + np.arange(m)) + (3 if f["grid"] else 0)
        tt = [x if x % 86400 else x + 1 for x in f["t"]]
        if case["date"] == "none":
            tt = sorted({x % 25000 + 28000 * j for x in tt})
        n = len(tt)
        names.append(f"2023_05_17_Wed_TST_{j:02d}_00_31")
        ranges.append(rg)
        b = {k: 10 ** r.uniform(-8, -4, (n, m)) * r.choice([1, 1, 1, 1, -1], (n, m)) for k in ("1064", "532", "355")}
        b = {k: ma.array(v, mask=(r.random((n, m)) < 0.05) | (r.random((n, 1)) < 0.1)) for k, v in b.items()}
        for k in dead:
            b[k] = ma.zeros((n, m)) if case["dead"] == "zero" else ma.masked_all((n, m))
        snr = r.uniform(-1, 8, (n, m))
        lim = 2 if case["snr"] is None else case["snr"]
        snr[np.abs(snr - lim) < 1e-3] += 0.1
        snr = ma.array(snr, mask=r.random((n, m)) < 0.03)
        dep = ma.array(r.uniform(-0.3, 1.4, (n, m)), mask=r.random((n, m)) < 0.05)
        with netCDF4.Dataset(os.path.join(src, names[-1] + "_att_bsc.nc"), "w") as nc, netCDF4.Dataset(os.path.join(src, names[-1] + "_vol_depol.nc"), "w") as nd:
            for h in (nc, nd):
                h.createDimension("time", n)
                h.createDimension("height", m)
                h.source = "ARIELLE"
                put(h, "height", ("height",), rg, unit="m")
                put(h, "time", ("time",), [off + x + (5 if h is nd and f["shift"] else 0) for x in tt], "f8", unit="seconds since 1970-01-01 00:00:00 UTC")
            for k, v in b.items():
                x = put(nc, f"attenuated_backscatter_{k}nm", ("time", "height"), v, fill=-999.0)
                x.Lidar_calibration_constant_used = np.float32(f["calib"])
                if not f["nosnr"]:
                    put(nc, f"SNR_{k}nm", ("time", "height"), snr, fill=-999.0)
            put(nd, "volume_depolarization_ratio_532nm", ("time", "height"), dep, fill=-999.0)
        for i in range(n):
            profs.append({"file": j, "s": tt[i], "raw": b[case["chan"] if case["chan"] != "none" else "1064"][i], "snr": snr[i], "dep": dep[i], "cal": np.float32(f["calib"])})
    return names, ranges, profs


@c.sub("pollyxt", polly_case(), quick=200, shards=2)
def _(case, t):
    src = t.path("in")
    os.mkdir(src)
    names, ranges, profs = polly_write(t, case, src)
    if case["odd"]:
        os.remove(os.path.join(src, names[-1] + "_vol_depol.nc"))
    files = [os.path.join(src, n + x) for n in reversed(names) for x in ("_att_bsc.nc", "_vol_depol.nc") if os.path.exists(os.path.join(src, n + x))]
    meta = {"name": "Test", "altitude": ALT, "latitude": 60.5, "longitude": 24.5}
    if case["snr"] is not None:
        meta["snr_limit"] = case["snr"]
    if case["zen"] is not None:
        meta["zenith_angle"] = case["zen"]
    out = t.path("o.nc")
    if case["first"]:  # an earlier conversion of other data must not influence this one
        other = t.path("other")
        os.mkdir(other)
        polly_write(t, dict(case, chan="355", seed=1, files=[{"t": [100, 130], "shift": 0, "grid": 0, "nosnr": 0, "calib": 1.0}], date="date"), other)
        pollyxt2nc(other, t.path("x.nc"), meta, None, DATE)
    res = call(t, pollyxt2nc, src if case["how"] == "dir" else files, out, meta, None, date_arg(case))
    if case["odd"]:
        t.ok(isinstance(res, InconsistentDataError), lambda: f"a depolarisation file is missing: {res!r}")
        return
    # the most common range grid is used; ties are not judged
    ng = [sum(f["grid"] == g for f in case["files"]) for g in (0, 1)]
    if ng[0] == ng[1]:
        return
    g = int(ng[1] > ng[0])
    rg = next(r for r, f in zip(ranges, case["files"]) if f["grid"] == g)
    okf = [f["grid"] == g for f in case["files"]]
    if case["chan"] == "none":
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"no working channel: {res!r}")
        return
    if all(ma.getmaskarray(p["raw"]).all() for p in profs if okf[p["file"]]):
        return
    use = [f["grid"] == g and not f["shift"] and not f["nosnr"] for f in case["files"]]
    sel = [p for p in profs if use[p["file"]] and (case["date"] == "none" or 0 <= p["s"] < 86400)]
    if not sel:
        t.ok(isinstance(res, ValidTimeStampError), lambda: f"no valid profiles: {res!r}")
        return
    lim = 2 if case["snr"] is None else case["snr"]
    by = {}
    for p in sel:
        by.setdefault(p["s"], []).append(p)
    if all(any(ma.getmaskarray(p["raw"]).all() for p in x) for x in by.values()):
        return
    if isinstance(res, Exception):
        t.fail(f"{type(res).__name__}: {res}")
    with netCDF4.Dataset(out) as nc:
        t.eq((nc.year, nc.month, nc.day, nc.cloudnet_file_type), ("2023", "05", "17", "lidar"), "attributes")
        zen = 5 if case["zen"] is None else case["zen"]
        t.same(t.var(nc, "range")[:], rg, "range", rtol=1e-6)
        t.same(t.var(nc, "zenith_angle")[:], zen, "zenith angle")
        t.same(t.var(nc, "height")[:], ALT + rg * np.cos(np.radians(zen)), "height", rtol=1e-6)
        t.same(t.var(nc, "wavelength")[:], float(case["chan"]), "wavelength")
        t.ok(f"SNR threshold applied: {lim}" in nc["beta"].comment, "comment of beta")
        got = {k: t.var(nc, k)[:] for k in ("beta_raw", "beta", "depolarisation", "depolarisation_raw", "calibration_factor")}
        sec = t.var(nc, "time")[:].astype(float) * 3600
        t.ok(np.all(np.diff(sec) > 0), lambda: f"time is not increasing: {sec}")
        must = [s for s, x in by.items() if not any(ma.getmaskarray(p["raw"]).all() for p in x)]
        may = [s for s, x in by.items() if not all(ma.getmaskarray(p["raw"]).all() for p in x)]
        r = np.round(sec).astype(int).tolist()
        t.ok(set(must) <= set(r) <= set(may), lambda: f"times {r}, expected {sorted(must)}")
        for i, s in enumerate(r):
            errs = []
            for p in by[s]:
                low = ma.filled(p["snr"], 1e9) < lim
                rawm, depm = ma.getmaskarray(p["raw"]), ma.getmaskarray(p["dep"])
                unk = ma.getmaskarray(p["snr"])
                exp = {"beta_raw": p["raw"], "beta": ma.array(p["raw"], mask=rawm | low | (p["raw"].data < 0)), "depolarisation_raw": p["dep"],
                       "depolarisation": ma.array(p["dep"], mask=depm | low | (p["dep"].data < 0) | (p["dep"].data > 1))}
                err = None
                for k, e in exp.items():
                    a, b = got[k][i], e
                    dm = ma.getmaskarray(a) != ma.getmaskarray(b)
                    if k in ("beta", "depolarisation"):
                        dm &= ~unk
                    ok = ~ma.getmaskarray(a) & ~ma.getmaskarray(b)
                    if dm.any() or not np.allclose(ma.getdata(a)[ok], ma.getdata(b)[ok], rtol=1e-5, atol=0):
                        err = f"{k} at {s} s: {a}, expected {b}"
                        break
                if err is None and got["calibration_factor"][i] != p["cal"]:
                    err = f"calibration factor at {s} s: {got['calibration_factor'][i]}, expected {p['cal']}"
                if err is None:
                    break
                errs.append(err)
            else:
                t.fail(errs[0])
            t.comparisons += 4
    t.mark(len(sel) > 1)
    t.label("fallback channel", case["chan"] != "1064")
    t.label("files ignored", not all(use))


c.main()
