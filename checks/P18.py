import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
from hypothesis import strategies as st
from numpy import ma
from scipy.interpolate import CubicSpline

from cloudnetpy.exceptions import ValidTimeStampError
from cloudnetpy.products import generate_epsilon_from_lidar, generate_epsilon_from_radar

c = Check(
    "P18",
    "Radar (or Doppler lidar) files with turbulent velocities, all kinds of gaps, sampling intervals, site altitudes and model (or lidar) winds are converted to dissipation rates; every value and error is compared with an independent spectral "
    "(or variance) estimate, and the conversion is repeated with scaled and shifted velocities.  Non-trivial: at least one retrieved and one masked value.",
    ["radar sampling intervals are whole seconds with a small jitter", "radar files reach over at least two output times", "lidar winds with gaps are constant in space and time, so that the filling method does not matter"],
)
DATE = {"year": "2023", "month": "05", "day": "17"}
UID = "12345678-1234-5678-1234-567812345678"
UNITS = "hours since 2023-05-17 00:00:00 +00:00"
BANDS = [(a * 10.0**p, b * 10.0**p) for p in (-3,) for a, b in ((5, 15), (5, 30), (5, 50), (8, 20), (8, 40), (8, 60))]
for _p in (-2, -1, 0):
    BANDS += [(a * 10.0**_p, b * 10.0**_p) for a, b in ((2, 7), (2, 10), (2, 15), (3, 10), (3, 20), (3, 30), (5, 15), (5, 30), (5, 50), (8, 20), (8, 40), (8, 60))]


def put(nc, name, data, dims=(), dtype="f4", **att):
    v = nc.createVariable(name, dtype, dims, fill_value=netCDF4.default_fillvals[dtype])
    v.setncatts(att)
    v[...] = data


def turbulence(r, n, m, dt):
    """Velocities with spectra about as steep as the inertial subrange."""
    f = np.fft.rfftfreq(max(n, 4), dt)
    f[0] = f[1]
    slope = r.choice([-5 / 3, -5 / 3, -5 / 3, -1.2, -2.4, 0.0], m)
    amp = f[:, None] ** (slope[None, :] / 2)
    x = np.fft.irfft(amp * (r.normal(size=amp.shape) + 1j * r.normal(size=amp.shape)), max(n, 4), axis=0)[:n]
    return x / (np.abs(x).max() + 1e-12)


def holes(r, kind, n, m):
    if kind == "none":
        return np.zeros((n, m), bool)
    if kind == "few":
        return r.random((n, m)) < r.choice([0.02, 0.05, 0.1, 0.12])
    if kind == "many":
        return r.random((n, m)) < 0.5
    x = np.zeros((n, m), bool)
    for _ in range(r.integers(1, 6)):
        i, j = r.integers(0, n), r.integers(0, m)
        x[i:i + r.integers(1, max(2, n // 2)), j:j + r.integers(1, m + 1)] = True
    return x


@st.composite
def radar_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"dt": S(3, 1, 5, 10, 30), "minutes": S(7, 4, 12, 1), "m": S(3, 1, 6), "gap": S("none", "none", "none", "short", "long"), "jitter": S(0.0, 0.2), "holes": S("none", "few", "few", "many", "blocks"), "alt": S(0.0, 350.5, 2000.0),
            "sfc": S("none", "height", "geopotential"), "nt": S(2, 5, 25), "wind": S(10.0, 1.0, 30.0), "moving": S(False, False, True), "levels": S("fixed", "drifting"), "start": S(3.0, 0.0, 23.8, 12.004), "amp": S(1.0, 0.1), "seed": draw(st.integers(0, 2**31)),
            "factor": S(2.0, 0.5), "shift": S(1.0, -2.0)}


def write_radar(path, time, height, v, case):
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", len(time))
        nc.createDimension("range", len(height))
        put(nc, "time", time, ("time",), "f8", units=UNITS)
        put(nc, "range", height - case["alt"], ("range",), units="m")
        put(nc, "height", height, ("range",), units="m")
        put(nc, "v", v, ("time", "range"), "f8", units="m s-1")
        place = {"altitude": case["alt"], "latitude": 60.25, "longitude": 24.5}
        for k, x in place.items():
            if case["moving"]:
                put(nc, k, np.full(len(time), x), ("time",), units="m" if k == "altitude" else "degree")
            else:
                put(nc, k, x, units="m" if k == "altitude" else "degree")
        nc.setncatts({**DATE, "location": "Test", "file_uuid": "radar-uuid", "cloudnet_file_type": "radar", "source": "METEK MIRA-35", "history": "2023-05-18 00:00:00 +00:00 - radar file created"})
    return path


def write_model(path, case, r):
    nt, nl = case["nt"], 6
    mt = np.linspace(0, 24, nt)
    sfc = case["alt"] - 5.5
    lev = np.linspace(0, 1500, nl)[None, :] * np.ones((nt, 1))
    u, v = (np.float32(r.uniform(-1, 1, (nt, nl)) * case["wind"]) for _ in range(2))
    drift = case["levels"] == "drifting"
    if drift:  # a wind that is linear in height: the same between the levels wherever they are
        lev = lev * (1.6 + 0.4 * r.uniform(-1, 1, (nt, 1))) + np.array([0.0] + [40.0] * (nl - 1)) * r.uniform(-1, 1, (nt, nl))
        ground, shear = case["wind"] * r.uniform(0.1, 0.5, nt), case["wind"] * r.choice([3e-4, 6e-4])
        u, v = np.float32(ground[:, None] + shear * lev), np.zeros((nt, nl), "f4")
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", nt)
        nc.createDimension("level", nl)
        put(nc, "time", mt, ("time",), units=UNITS)
        put(nc, "height", lev, ("time", "level"), units="m")
        put(nc, "uwind", u, ("time", "level"))
        put(nc, "vwind", v, ("time", "level"))
        if case["sfc"] == "height":
            put(nc, "sfc_height", np.full(nt, sfc), ("time",), units="m")
        elif case["sfc"] == "geopotential":
            put(nc, "sfc_geopotential", np.full(nt, sfc * 9.80665), ("time",))
        nc.setncatts({**DATE, "location": "Test", "file_uuid": "model-uuid", "cloudnet_file_type": "model", "source": "ECMWF IFS", "history": "2023-05-18 00:00:00 +00:00 - model file created"})
    heights = lev[0] + (case["alt"] if case["sfc"] == "none" else sfc)
    speed = np.hypot(u.astype(float), v.astype(float))

    def wind(t, h):
        if drift:
            return np.interp(t, mt, ground) + shear * (h - heights[0])
        at = np.array([np.interp(t, mt, speed[:, k]) for k in range(nl)])
        return np.interp(h, heights, at)

    return path, wind


def dissipation(x, t, dt, u):
    """(epsilon, standard deviation between bands, whether rounding decides) of one window."""
    n = len(x)
    k = 2 * np.pi * np.arange(1, n // 2 + 1) / (n * dt * u)
    spectrum = np.array([abs(np.sum(x * np.exp(-2j * np.pi * q * np.arange(n) / n))) ** 2 for q in range(1, n // 2 + 1)]) * dt * u / (n * np.pi)
    good = spectrum > 1e-25 * (spectrum.max() if len(spectrum) else 1)
    if len(k) < 2:
        return None, None, False
    if not good.all():
        return None, None, True
    out, unsure = [], False
    for lo, hi in BANDS:
        use = (k > lo) & (k < hi)
        unsure |= bool(np.any(np.minimum(np.abs(k / lo - 1), np.abs(k / hi - 1)) < 1e-6))
        if use.sum() < 2:
            continue
        slope, icept = np.polyfit(np.log10(k[use]), np.log10(spectrum[use]), 1)
        unsure |= min(abs(slope + 2), abs(slope + 1.33)) < 1e-6
        if -2 < slope < -1.33:
            out.append((10**icept / 0.5) ** 1.5)
    if not out:
        return None, None, unsure
    return np.mean(out), (np.std(out, ddof=1) if len(out) > 1 else None), unsure


@c.sub("radar", radar_case(), quick=80, thorough=800, shards=4)
def _(case, t):
    r = rng(case["seed"])
    dt, m = case["dt"], case["m"]
    sec = case["start"] * 3600 + 0.35 + np.arange(0, case["minutes"] * 60, dt)
    if case["jitter"]:
        sec = sec + r.uniform(-0.2, 0.2, len(sec))
    if case["gap"] != "none":
        a = r.integers(0, len(sec))
        sec = np.delete(sec, np.arange(a, min(len(sec), a + (2 if case["gap"] == "short" else max(1, len(sec) // 3)))))
    sec = sec[sec < 86390]
    n = len(sec)
    if n < 3:
        return
    time = sec / 3600
    height = (case["alt"] + 100 + 250.0 * np.arange(m)).astype("f4")
    v = turbulence(r, n, m, dt) * case["amp"] - r.choice([0, 3.0])
    gone = holes(r, case["holes"], n, m)
    model, wind = write_model(t.path("ecmwf.nc"), case, r)

    def run(v, name):
        out = t.path(name + "_out.nc")
        generate_epsilon_from_radar(write_radar(t.path(name), time, height, ma.array(v, mask=gone), case), model, out, UID)
        return out

    grid = np.arange(2880) * 30 + 15.0
    step = np.round(np.median(np.diff(sec)))
    keep = [g for g in grid if np.any((sec > g) & (sec <= g + 300))]
    if len(keep) < 2:
        return
    eps, std = ma.masked_all((len(keep), m)), ma.masked_all((len(keep), m))
    skip = np.zeros((len(keep), m), bool)
    partial = np.zeros(len(keep), bool)
    for i, g in enumerate(keep):
        w = (sec > g) & (sec <= g + 300)
        if np.any(np.abs(sec - g) < 1e-5) or np.any(np.abs(sec - g - 300) < 1e-5):
            skip[i] = True
        partial[i] = w.sum() < 0.9 * (300 // step)
        for j in range(m):
            x, bad, tt = v[w, j], gone[w, j], time[w]
            if bad[:2].all() or bad[-2:].all() or (~bad).sum() < max(2, int(0.9 * w.sum())):
                continue
            if bad.any():
                x = CubicSpline(tt[~bad], x[~bad])(tt)
            u = float(wind(g / 3600, float(height[j])))
            if u <= 0:
                continue
            e, s, unsure = dissipation(x, tt, step, u)
            skip[i, j] |= unsure
            if e is not None:
                eps[i, j] = e
                if s is not None:
                    std[i, j] = s
    out = run(v, "radar.nc")
    with netCDF4.Dataset(out) as nc:
        t.same(t.var(nc, "time")[:], np.array(keep) / 3600, "time", rtol=1e-9)
        t.same(t.var(nc, "height")[:], height, "height", rtol=1e-7)
        t.eq((nc.year, nc.month, nc.day, nc.location, nc.cloudnet_file_type, nc.file_uuid), ("2023", "05", "17", "Test", "epsilon-radar", UID), "global attributes")
        t.ok("radar-uuid" in nc.source_file_uuids and "model-uuid" in nc.source_file_uuids, "source_file_uuids")
        for k, x in (("altitude", case["alt"]), ("latitude", 60.25), ("longitude", 24.5)):
            g = t.var(nc, k)[:]
            t.same(g, ma.array(np.full(len(keep), x), mask=ma.getmaskarray(g)), k)
            inside = np.array([np.any(np.abs(sec - q) < 14.9) for q in keep])
            t.ok(not np.any(ma.getmaskarray(g)[inside] if case["moving"] else ma.getmaskarray(g)), f"{k} is masked")
        got, err = t.var(nc, "epsilon")[:], t.var(nc, "epsilon_error")[:]
    t.ok(np.all(got.compressed() > 0), "epsilon is not positive")
    over = partial[:, None] & ~ma.getmaskarray(got)
    free = skip | (partial[:, None] & ma.getmaskarray(got))

    def hide(x):
        return ma.array(x, mask=ma.getmaskarray(x) | free)

    t.same(hide(got), hide(eps), "epsilon", rtol=1e-3, atol=0)
    single = ma.getmaskarray(std) != ma.getmaskarray(err)
    t.ok(not np.any(single & ~free), "epsilon_error is masked where more than one band passed or not masked where one did")
    scale = ma.filled(eps, 0) * 1e-4
    t.ok(np.all(np.abs(ma.filled(err - std, 0))[~free] <= (1e-3 * np.abs(ma.filled(std, 0)) + scale)[~free]), "epsilon_error is not the standard deviation between the bands")
    with netCDF4.Dataset(run(v * case["factor"], "scaled.nc")) as nc:
        t.same(hide(nc["epsilon"][:]), hide(ma.array(eps * case["factor"] ** 3)), "epsilon of scaled velocities", rtol=1e-3, atol=0)
    with netCDF4.Dataset(run(v + case["shift"], "shifted.nc")) as nc:
        t.same(hide(nc["epsilon"][:]), hide(eps), "epsilon of shifted velocities", rtol=1e-3, atol=0)
    t.mark(np.any(~ma.getmaskarray(eps)) and np.any(ma.getmaskarray(eps)))
    t.label("drifting levels", case["levels"] == "drifting")
    t.label("retrieved", np.any(~ma.getmaskarray(eps)))
    t.label("filled gaps", bool(np.any(gone)))
    t.label("incomplete windows", partial.any())
    t.label("retrieved from incomplete windows", over.any())
    t.label("error", np.any(~ma.getmaskarray(std)))


# -- Doppler lidar -----------------------------------------------------------
@st.composite
def lidar_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"n": S(20, 5, 60), "m": S(4, 3, 8), "dt": S(10.0, 25.0, 40.0, 200.0), "jitter": S(0.0, 0.3), "gap": S(False, True), "holes": S("none", "none", "few", "few", "many", "blocks"), "wind": S("full", "full", "full", "random", "gaps", "all"), "nw": S(4, 8, 24),
            "span": S("day", "day", "part"), "ray": S("time", "pulses"), "speed": S(10.0, 2.0), "alt": S(0.0, 350.5), "start": S(3.0, 0.0, 20.0), "top": S(1.2, 0.5), "seed": draw(st.integers(0, 2**31)), "factor": S(2.0, 0.5), "shift": S(1.0, -2.0)}


def lidar_file(path, kind, time, height, fields, case, **extra):
    dim = "range" if kind == "doppler-lidar" else "height"
    with netCDF4.Dataset(path, "w", format="NETCDF4") as nc:
        nc.createDimension("time", len(time))
        nc.createDimension(dim, len(height))
        put(nc, "time", time, ("time",), "f8", units=UNITS, calendar="standard")
        put(nc, "height", height, (dim,), units="m", standard_name="height_above_mean_sea_level", long_name="Height above mean sea level")
        if dim == "range":
            put(nc, "range", height - case["alt"], (dim,), units="m")
        for k, x in fields.items():
            put(nc, k, x, ("time", dim), "f8" if k == "v" else "f4", units="m s-1")
        for k, x in (("altitude", case["alt"]), ("latitude", 60.25), ("longitude", 24.5)):
            put(nc, k, x, units="m")
        for k, x in extra.items():
            put(nc, k, x)
        nc.setncatts({**DATE, "location": "Test", "file_uuid": kind + "-uuid", "cloudnet_file_type": kind, "source": "HALO Photonics StreamLine", "Conventions": "CF-1.8", "title": "x", "history": f"2023-05-18 00:00:00 +00:00 - {kind} file created"})
    return path


@c.sub("lidar", lidar_case(), quick=150, thorough=1500, shards=4)
def _(case, t):
    r = rng(case["seed"])
    n, m, dt = case["n"], case["m"], case["dt"]
    sec = case["start"] * 3600 + 0.35 + dt * np.arange(n)
    sec = np.round(sec + r.uniform(-1, 1, n) * case["jitter"] * dt, 1)
    sec = np.sort(np.abs(sec))
    if case["gap"]:
        sec[n // 2:] += 97.3
    sec = np.minimum(sec, 86399.0 - np.arange(n)[::-1])
    height = (case["alt"] + 100 + 120.0 * np.arange(m)).astype("f4")
    v = turbulence(r, n, m, dt) - 1.0
    gone = holes(r, case["holes"], n, m)
    nw, mw = case["nw"], 6
    wt = np.linspace(0.01, 23.9, nw) if case["span"] == "day" else case["start"] + 0.01 + np.linspace(0, 0.2, nw)
    wh = (case["alt"] + np.linspace(110, 100 + 120.0 * m * case["top"], mw)).astype("f4")
    if case["wind"] == "random":
        u, w = (np.float32(r.uniform(0.2, 1, (nw, mw)) * case["speed"]) for _ in range(2))
    else:
        # speed changes linearly with time and height
        plane = 0.7 + 0.3 * r.uniform(-1, 1) * np.linspace(-1, 1, nw)[:, None] + r.uniform(-0.3, 0.3) * np.linspace(-1, 1, mw)[None, :]
        angle = r.uniform(0, 2 * np.pi, (nw, mw))
        u, w = np.float32(case["speed"] * plane * np.cos(angle)), np.float32(case["speed"] * plane * np.sin(angle))
    lost = np.zeros((nw, mw), bool)
    if case["wind"] in ("gaps", "all"):
        u[:], w[:] = u[0, 0], w[0, 0]
        lost = np.ones((nw, mw), bool) if case["wind"] == "all" else r.random((nw, mw)) < 0.3
    hori = lidar_file(t.path("wind.nc"), "doppler-lidar-wind", wt, wh, {"uwind": ma.array(u, mask=lost), "vwind": ma.array(w, mask=lost)}, case)
    ray = 1.25 if case["ray"] == "time" else 15000 / 15e3
    extra = {"ray_accumulation_time": 1.25} if case["ray"] == "time" else {"pulses_per_ray": 15000}

    def run(v, name):
        out = t.path(name + "_out.nc")
        src = lidar_file(t.path(name), "doppler-lidar", sec / 3600, height, {"v": ma.array(v, mask=gone)}, case, **extra)
        generate_epsilon_from_lidar(src, hori, out, UID)
        return out

    left = ~lost
    if left.any(axis=1).sum() < 3 or left.any(axis=0).sum() < 3:
        try:
            run(v, "stare.nc")
        except ValidTimeStampError:
            return
        t.fail("no exception although there is not enough wind data")
    # independent estimate
    speed = np.hypot(u.astype(float), w.astype(float))
    wsec = wt * 3600
    windows, amb = [], False
    for s in sec:
        before = np.where(sec <= s - 90)[0]
        after = np.where(sec >= s + 90)[0]
        windows.append((before[-1] if len(before) else 0, after[0] if len(after) else n - 1))
        amb |= bool(np.any(np.abs(np.abs(sec - s) - 90) < 1e-3))
    if amb:
        t.label("window boundary hits a sample")
        return
    calm = np.zeros((n, m), bool)  # rounding dominates the running variance

    def estimate(speed):
        V = np.empty((n, m))
        for i, s in enumerate(sec):
            for j, h in enumerate(height.astype(float)):
                if wsec[0] <= s <= wsec[-1] and wh[0] <= h <= wh[-1]:
                    V[i, j] = np.interp(h, wh.astype(float), [np.interp(s, wsec, speed[:, q]) for q in range(mw)])
                else:
                    V[i, j] = speed[np.argmin(np.abs(wsec - s)), np.argmin(np.abs(wh - h))]
        eps = ma.masked_all((n, m))
        for i, (a, b) in enumerate(windows):
            for j in range(m):
                if gone[i, j]:
                    continue
                ok = np.arange(a, b + 1)[~gone[a:b + 1, j]]
                var = np.var(v[ok, j])
                calm[i, j] = var < 1e-6
                wind = V[a:b + 1, j].mean()
                upper = wind * (sec[ok[-1]] - sec[ok[0]])
                lower = wind * ray + 2 * float(height[j]) * np.sin(33e-6 / 2)
                if len(ok) > 1 and upper > lower:
                    eps[i, j] = 2 * np.pi * (2 / (3 * 0.55)) ** 1.5 * var**1.5 * (upper ** (2 / 3) - lower ** (2 / 3)) ** -1.5
        return eps

    eps = estimate(speed)
    with netCDF4.Dataset(run(v, "stare.nc")) as nc:
        t.same(t.var(nc, "time")[:], sec / 3600, "time", rtol=1e-7)
        t.same(t.var(nc, "height")[:], height, "height", rtol=1e-7)
        t.eq((nc.year, nc.month, nc.day, nc.location, nc.cloudnet_file_type, nc.file_uuid), ("2023", "05", "17", "Test", "epsilon-lidar", UID), "global attributes")
        t.ok("doppler-lidar-uuid" in nc.source_file_uuids and "doppler-lidar-wind-uuid" in nc.source_file_uuids, "source_file_uuids")
        for k, x in (("altitude", case["alt"]), ("latitude", 60.25), ("longitude", 24.5)):
            t.same(t.var(nc, k)[:], x, k)
        t.same(t.var(nc, "ray_accumulation_time")[:], ray, "ray_accumulation_time")
        t.same(t.var(nc, "rolling_window_period")[:], 180, "rolling_window_period")
        got = t.var(nc, "epsilon")[:]
    def hide(x):
        return ma.array(x, mask=ma.getmaskarray(x) | calm)

    t.ok(np.all(hide(got).compressed() > 0), "epsilon is not positive")
    try:
        t.same(hide(got), hide(eps), "epsilon", rtol=2e-3, atol=0)
    except Violation:
        # known finding: wind at the points of the wind file itself is interpolated along degenerate triangles
        # (this does not matter if the speed changes linearly)
        if case["wind"] != "random":
            raise
        t.label("known finding: skewed wind")
        return
    with netCDF4.Dataset(run(v * case["factor"], "scaled.nc")) as nc:
        t.same(hide(nc["epsilon"][:]), hide(eps * case["factor"] ** 3), "epsilon of scaled velocities", rtol=2e-3, atol=0)
    with netCDF4.Dataset(run(v + case["shift"], "shifted.nc")) as nc:
        t.same(hide(nc["epsilon"][:]), hide(eps), "epsilon of shifted velocities", rtol=2e-3, atol=0)
    t.mark(np.any(~ma.getmaskarray(eps)) and np.any(ma.getmaskarray(eps)))
    for k in ("holes", "wind", "ray", "span"):
        t.label(f"{k} {case[k]}")


c.main()
