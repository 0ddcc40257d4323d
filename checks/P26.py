import os, sys
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import hashlib
import warnings
from types import SimpleNamespace

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import netCDF4
from hypothesis import strategies as st
from matplotlib.colors import to_rgba
from numpy import ma

from cloudnetpy.exceptions import PlottingError
from cloudnetpy.model_evaluation.plotting.plotting import generate_L3_day_plots
from cloudnetpy.plotting import PlotMeta, PlotParameters, generate_figure
from cloudnetpy.plotting.plot_meta import ATTRIBUTES

warnings.filterwarnings("ignore")
c = Check(
    "P26",
    "Synthetic files of every plottable kind (level 1 instruments, categorize, products, model, microwave radiometer with channels and flags) with generated masks, gaps, grids and options are drawn; the artists of the figure are compared with the file at every pixel.  "
    "Non-trivial: a drawn panel with both shown and hidden data.",
    ["what is drawn is read from the figure's images and lines, not from the pixels of the saved picture"],
)

# file type -> [(variable, units, dimensions)]
T2, T1 = ("time", "height"), ("time",)
FILES = {
    "radar": [("Zh", "dBZ", T2), ("v", "m s-1", T2), ("width", "m s-1", T2), ("ldr", "dB", T2), ("lwp", "kg m-2", T1), ("zenith_angle", "degree", T1)],
    "lidar": [("beta", "sr-1 m-1", T2), ("depolarisation", "1", T2), ("beta_raw", "sr-1 m-1", T2), ("zenith_angle", "degree", T1)],
    "categorize": [("Z", "dBZ", T2), ("v", "m s-1", T2), ("v_sigma", "m s-1", T2), ("radar_gas_atten", "dB", T2), ("lwp", "kg m-2", T1), ("rainfall_rate", "m s-1", T1), ("insect_prob", "1", T2)],
    "classification": [("target_classification", "1", T2), ("detection_status", "1", T2), ("radar_attenuation_status", "1", T2), ("cloud_top_height_agl", "m", T1), ("signal_source_status", "1", T2)],
    "iwc": [("iwc", "kg m-3", T2), ("iwc_error", "dB", T2), ("iwc_retrieval_status", "1", T2), ("iwc_inc_rain", "kg m-3", T2)],
    "lwc": [("lwc", "kg m-3", T2), ("lwc_error", "dB", T2), ("lwc_retrieval_status", "1", T2)],
    "drizzle": [("Do", "m", T2), ("mu", "1", T2), ("S", "sr", T2), ("drizzle_N", "m-3", T2), ("v_air", "m s-1", T2), ("drizzle_retrieval_status", "1", T2)],
    "der": [("der", "m", T2), ("der_scaled", "m", T2), ("N_scaled", "m-3", T2), ("der_retrieval_status", "1", T2)],
    "ier": [("ier", "m", T2), ("ier_error", "m", T2), ("ier_retrieval_status", "1", T2)],
    "epsilon-radar": [("epsilon", "m2 s-3", T2)],
    "epsilon-lidar": [("epsilon", "m2 s-3", T2), ("epsilon_error", "m2 s-3", T2)],
    "doppler-lidar-wind": [("uwind", "m s-1", T2), ("vwind_raw", "m s-1", T2)],
    "weather-radar": [("Zh", "dBZ", T2), ("zdr", "dB", T2), ("rho_hv", "1", T2)],
    "rain-radar": [("rainfall_rate", "m s-1", T2), ("Zh", "dBZ", T2), ("fall_velocity", "m s-1", T2), ("pia", "dB", T1)],
    "model": [("cloud_fraction", "1", T2), ("uwind", "m s-1", T2), ("q", "1", T2), ("temperature", "K", T2), ("pressure", "Pa", T2)],
    "disdrometer": [("number_concentration", "m-3 mm-1", ("time", "diameter")), ("fall_velocity", "m s-1", ("time", "diameter")), ("rainfall_rate", "m s-1", T1), ("n_particles", "1", T1)],
    "rain-gauge": [("rainfall_rate", "m s-1", T1), ("rainfall_amount", "m", T1)],
    "weather-station": [("air_temperature", "K", T1), ("air_pressure", "Pa", T1), ("relative_humidity", "1", T1), ("rainfall_rate", "m s-1", T1), ("wind_speed", "m s-1", T1), ("wind_direction", "degree", T1), ("rainfall_amount", "m", T1)],
    "mwr": [("lwp", "kg m-2", T1), ("iwv", "kg m-2", T1)],
    "mwr-single": [("lwp", "kg m-2", T1), ("iwv", "kg m-2", T1), ("temperature", "K", T2), ("relative_humidity", "1", T2), ("absolute_humidity", "kg m-3", T2)],
    "mwr-multi": [("temperature", "K", T2), ("potential_temperature", "K", T2)],
    "mwr-l1c": [("tb", "K", ("time", "frequency")), ("irt", "K", ("time", "ir_wavelength")), ("air_temperature", "K", T1), ("relative_humidity", "1", T1)],
    "cpr-simulation": [("ze_sat", "dBZ", ("along_track_sat", "height_sat")), ("vm_sat", "m s-1", ("along_track_sat", "height_sat"))],
}
MM = (3600000, 0, "mm h$^{-1}$")
UNITS = {"rainfall_rate": MM, "air_pressure": (0.01, 0, "hPa"), "relative_humidity": (100, 0, "%"), "rainfall_amount": (1000, 0, "mm"), "air_temperature": (1, -273.15, "\u00b0C"), "temperature": (1, -273.15, "\u00b0C"), "Tw": (1, -273.15, "\u00b0C"), "cloud_top_height_agl": (1e-3, 0, "Height (km AGL)")}
SHOWN = {"kg m-2": "kg m$^{-2}$", "m s-1": "m s$^{-1}$", "1": "", "degree": "degree", "K": "K", "dB": "dB", "dBZ": "dBZ", "sr-1 m-1": "sr$^{-1}$ m$^{-1}$", "kg m-3": "kg m$^{-3}$", "m": "m", "sr": "sr", "m-3": "m$^{-3}$", "m2 s-3": "m$^{2}$ s$^{-3}$", "Pa": "Pa", "m-3 mm-1": "m$^{-3}$ mm$^{-1}$"}
SPAN = {"zenith_angle": (-3, 30), "lwp": (-0.05, 0.5), "iwv": (2, 40), "rainfall_rate": (0, 2e-5), "cloud_top_height_agl": (100, 12000), "air_temperature": (230, 310), "air_pressure": (9e4, 1.04e5), "relative_humidity": (0.1, 1.05), "wind_speed": (0, 30), "wind_direction": (0, 360), "rainfall_amount": (0, 0.03), "n_particles": (0, 500), "pia": (0, 4), "tb": (10, 300), "irt": (180, 300), "temperature": (200, 310), "potential_temperature": (250, 330)}
LIMIT = {"mwr-multi": 35, "weather-station": 12, "doppler-lidar-wind": 75, "epsilon-lidar": 75, "radar": 5, "weather-radar": 20}  # longest gap (minutes) that is bridged; 10 for the rest


def meta_of(ftype, name):
    m = ATTRIBUTES.get(ftype, {}).get(name)
    return m if m is not None else ATTRIBUTES["fallback"].get(name, PlotMeta())


@st.composite
def plot_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    ftype = draw(st.sampled_from(sorted(FILES)))
    names = [x[0] for x in FILES[ftype]]
    return {"type": ftype, "vars": draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True)), "unknown": S("no", "no", "first", "last", "only"), "times": S("day", "part", "gaps", "irregular", "one", "two", "gap", "limits", "limits"), "nz": S(12, 3, 30, 2), "levels": S("regular", "stretched"), "top": S(15, 8, 3),
            "mask": S("some", "none", "profiles", "columns", "all"), "extreme": S(False, True), "alt": S(100.0, 0.0, 2500.0), "altdim": S("scalar", "time"), "flags": S("some", "none", "all"), "tilt": S("some", "none"), "channels": S(1, 3), "bad_channel": S(False, False, False, True), "rainy": S("some", "none", "absent"),
            "max_y": S(12, 5, 20), "title": S(True, False), "subtitle": S(True, False), "gapmarks": S(True, False), "grid": S(False, True), "edges": S(False, True), "sources": S("no", "file", "variable", "missing"), "footer": S(None, "short", "A long footer text " * 6), "above": S(True, False), "raise": S(False, True), "minor": S(True, False), "dpi": S(60, 120), "own": S("no", "no", "range", "log", "plain"), "options": S(True, True, False), "save": S(True, False, False), "seed": draw(st.integers(0, 2**31))}


def times(r, case, ftype):
    if ftype == "cpr-simulation":
        x = np.arange(0, 517, 0.9)
        return {"part": x[100:400], "one": x[5:6], "two": x[5:7], "gap": np.r_[x[:200], x[320:]], "gaps": np.r_[x[30:60], x[200:300], x[400:-20]], "irregular": np.sort(x + r.uniform(0, 0.4, len(x)))}.get(case["times"], x)
    if ftype == "model":
        x = np.arange(0, 25, 1.0)
        if case["seed"] % 3 == 0:
            x = np.arange(0, 24.1, 0.5)
        return {"part": x[3:15], "two": x[4:6], "one": x[3:5], "irregular": x[::3]}.get(case["times"], x)
    x = np.arange(0, 86400, int(r.choice([150, 200]))) / 3600 + 0.01
    k = case["times"]
    lim = LIMIT.get(ftype, 10) / 60
    if k == "limits":  # gaps just below and above what is bridged, also at the ends of the day
        a, b = r.choice([0.9, 1.1], 2) * lim
        x = x + r.choice([0.9, 1.1]) * lim
        x = x[x < 24 - r.choice([0.9, 1.1]) * lim]
        x = np.r_[x[x < 7], x[x >= 7] + a]
        x = np.r_[x[x < 15], x[x >= 15] + b]
        return x[x < 24]
    if k == "part":
        x = x[(x > 3.1) & (x < 17)]
    elif k == "gap":
        x = x[(x < 8) | (x > 11)]
    elif k == "gaps":
        x = x[(x > 2.2) & (x < 20.3) & ~((x > 5) & (x < 7)) & ~((x > 7.1) & (x < 12.04)) & ~((x > 15) & (x < 17.5))]
    elif k == "irregular":
        x = np.sort(x + r.uniform(0, 0.025, len(x)))
    elif k == "one":
        x = x[50:51]
    elif k == "two":
        x = x[50:52]
    return x


def field(r, case, name, shape, m):
    if isinstance(m.clabel, (tuple, list)):
        x = r.integers(0, len(m.clabel), shape)
        return np.repeat(x[:, ::1], 1, axis=0).astype("i4")
    lo, hi = SPAN.get(name) or m.plot_range or (0, 10)
    if m.log_scale:
        a, b = np.log10(lo), np.log10(hi)
        w = 0.5 if case["extreme"] else 0
        x = 10 ** r.uniform(a - w, b + w, shape)
        if case["extreme"]:
            x[r.random(shape) < 0.05] = 0
    else:
        w = 0.2 * (hi - lo) if case["extreme"] and name not in SPAN else 0
        x = r.uniform(lo - w, hi + w, shape)
    if m.mask_zeros or name == "cloud_fraction":
        x[r.random(shape) < 0.2] = 0
    return x.astype("f4")


def mask(r, case, shape):
    x = np.zeros(shape, bool)
    k = case["mask"]
    if k == "some":
        x = r.random(shape) < 0.3
    elif k == "profiles":
        x[r.random(shape[0]) < 0.4] = True
    elif k == "columns" and len(shape) == 2:
        x[:, r.random(shape[1]) < 0.4] = True
    elif k == "all":
        x[:] = True
    return x


def build(t, case):
    """Writes the file; returns everything that was put into it."""
    r = rng(case["seed"])
    ftype = case["type"]
    time = times(r, case, ftype).astype("f4")
    nt, nz = len(time), case["nz"]
    if case["levels"] == "regular":
        z = np.linspace(0.2, case["top"], nz)
    else:
        z = 0.1 + np.cumsum(np.linspace(1, 4, nz) + r.uniform(0, 0.2, nz))
        z = z / z[-1] * case["top"]
    z = z * 1000  # above ground
    used = [x for x in FILES[ftype] if x[0] in case["vars"]]
    names = case["vars"]
    info = {"time": time.astype(float), "vars": {}, "agl": z, "levels": {}}
    sim, disdro = ftype == "cpr-simulation", ftype == "disdrometer"
    path = t.path("file.nc")
    with netCDF4.Dataset(path, "w") as nc:
        nc.setncatts({"cloudnet_file_type": ftype, "year": "2022", "month": "07", "day": "09", "location": "Test site"})
        if case["sources"] in ("file", "variable"):
            nc.source = "ECMWF" if ftype == "model" else "Instrument A\nInstrument B"
        elif ftype == "model":
            nc.source = "ECMWF"
        tdim = "along_track_sat" if sim else "time"
        nc.createDimension(tdim, None if case["seed"] % 2 else nt)
        v = nc.createVariable(tdim, "f4", (tdim,))
        v[:] = time * 1000 if sim else time
        if sim:
            info["time"] = np.asarray(v[:], float) / 1000
        zdim = "height_sat" if sim else "height"
        if disdro:
            nc.createDimension("diameter", nz)
            nc.createVariable("diameter", "f4", ("diameter",))[:] = z * 0.6e-6
        else:
            nc.createDimension(zdim, nz)
            if ftype == "model":
                v = nc.createVariable("height", "f4", ("time", "height"))
                v[:] = z[None, :] + np.where(np.arange(nt) % 2, 1.0, -1.0)[:, None] * (nt % 2 == 0)
                nc.createVariable("sfc_geopotential", "f4", ("time",))[:] = case["alt"] * 9.80665
            elif ftype not in ("mwr-l1c", "weather-station", "rain-gauge", "mwr"):
                nc.createVariable(zdim, "f4", (zdim,))[:] = z + case["alt"]
        if case["altdim"] == "time" and not sim:
            nc.createVariable("altitude", "f4", (tdim,))[:] = case["alt"]
        else:
            nc.createVariable("altitude", "f4")[:] = case["alt"]
        if ftype == "mwr-l1c":
            nc.createDimension("frequency", case["channels"])
            nc.createDimension("ir_wavelength", 2)
            nc.createVariable("frequency", "f4", ("frequency",))[:] = 22.25 + np.arange(case["channels"]) * 10
            nc.createVariable("ir_wavelength", "f4", ("ir_wavelength",))[:] = [1.05e-5, 9.8e-6]
            zen = r.uniform(0, 4, nt)
            flag = np.zeros(nt, int)
            if case["tilt"] == "some":
                zen[r.random(nt) < 0.2] = 60
                flag[r.random(nt) < 0.2] = 1
            nc.createVariable("zenith_angle", "f4", ("time",))[:] = zen
            nc.createVariable("pointing_flag", "i4", ("time",))[:] = flag
            info["bad"] = (zen > 5) | (flag != 0)
        p = {"some": 0.2, "none": 0, "all": 1}[case["flags"]]
        if ftype == "mwr-l1c":
            info["flags"] = (r.random((nt, case["channels"])) < p) * 2
            nc.createVariable("quality_flag", "i4", ("time", "frequency"))[:] = info["flags"]
        if ftype in ("mwr-single", "mwr-multi"):
            info["flags"] = (r.random(nt) < p) * 2
            for n in ("lwp", "iwv", "temperature"):
                nc.createVariable(f"{n}_quality_flag", "i4", ("time",))[:] = info["flags"]
        if ftype == "classification":
            if case["rainy"] != "absent":
                nc.createVariable("rain_detected", "i4", ("time",))[:] = (r.random(nt) < 0.3) * (case["rainy"] == "some")
            info["status"] = np.where(r.random(nt) < p, r.integers(0, 6, nt), 0)
            nc.createVariable("cloud_top_height_status", "i4", ("time",))[:] = info["status"]
        extra = [x for x in FILES[ftype] if x[0] == "wind_speed"] if "wind_direction" in names and "wind_speed" not in names else []
        for name, units, dims in used + extra:
            m = meta_of(ftype, name)
            shape = tuple(nc.dimensions[d].size if d != tdim else nt for d in dims)
            x = field(r, case, name, shape, m)
            hide = mask(r, case, shape)
            if name == "wind_speed":
                hide[:] = False
            # land-sea profiles of a model never lack all of the data
            v = nc.createVariable(name, x.dtype, dims, fill_value=netCDF4.default_fillvals[x.dtype.str[1:]])
            v.units = units
            v.long_name = f"Long name of {name}"
            if case["sources"] == "variable":
                v.source = f"Source of {name}"
            v[:] = ma.array(x, mask=hide)
            info["vars"][name] = (x.astype(float), hide, units, len(dims))
    return path, info


def panels(fig):
    """The axes with data, from top to bottom (colour bars are narrow axes without a title of their own)."""
    axes = [a for a in fig.axes if a.get_subplotspec() is not None and a.get_label() != "<colorbar>"]
    return [a for a in axes if a.get_position().width > 0.1]


def at(ax, image, x, y):
    px = ax.transData.transform((x, y))
    if hasattr(image, "get_coordinates"):  # QuadMesh
        e = image.get_coordinates()
        i, j = np.searchsorted(e[:, 0, 1], y) - 1, np.searchsorted(e[0, :, 0], x) - 1
        return image.get_array().reshape(e.shape[0] - 1, e.shape[1] - 1)[i, j]
    return image.get_cursor_data(SimpleNamespace(x=px[0], y=px[1], xdata=x, ydata=y))


def gone(v):
    return v is None or v is ma.masked or (np.ndim(v) == 0 and not np.isfinite(v))


def check_2d(t, r, ax, case, info, name, m, opt):
    x, hide, units, _ = info["vars"][name]
    mul, add, _ = UNITS.get(name, (1, 0, None))
    smoothing = m.time_smoothing_duration > 0
    ftype = case["type"]
    x = x * mul + add
    hide = hide.copy()
    if m.mask_zeros or name == "cloud_fraction":
        hide |= x == 0
    if ftype == "disdrometer":
        z = info["agl"] * 0.6e-3
    else:
        agl = ftype == "model" or opt.plot_above_ground
        z = info["agl"] / 1000 + (0 if opt.plot_above_ground else case["alt"] / 1000)
    images = list(ax.images) + [q for q in ax.collections if hasattr(q, "get_coordinates")]
    t.eq(len(images), 1, f"images of {name}")
    im = images[0]
    segments = isinstance(m.clabel, (tuple, list))
    label = None
    if m.log_scale:
        x = np.log10(np.maximum(x, m.plot_range[0]))
    if not segments:
        lim = m.plot_range
        if lim is not None:
            t.ok(np.allclose(im.get_clim(), np.log10(lim) if m.log_scale else lim, rtol=1e-6), f"colour limits of {name}: {im.get_clim()} instead of {lim}")
        t.eq(im.get_cmap().name, m.cmap, f"colour map of {name}")
    else:
        bar = im.colorbar
        label = {round(float(k)): w.get_text() for k, w in zip(bar.get_ticks(), bar.ax.get_yticklabels())}
        t.eq([v for _, v in sorted(label.items())], [k for k, _ in m.clabel if not k.startswith("_")], f"labels of {name}")
    time = info["time"]
    show = [j for j in range(len(z)) if z[j] <= opt.max_y]
    if not show:
        show = []
    nt = len(time)
    prof = np.unique(np.r_[0, nt - 1, r.integers(0, nt, 40), np.flatnonzero(np.diff(time) > 0.3), np.flatnonzero(np.diff(time) > 0.3) + 1])
    shown = hidden = 0
    lost = (hide if m.mask_zeros else info["vars"][name][1]).all(axis=1)
    for i in prof:
        for j in r.permutation(show)[:12]:
            v = at(ax, im, time[i], z[j])
            where = f"{name} at {time[i]:.4f}, {z[j]:.3f}"
            if hide[i, j]:
                hidden += 1
                t.ok(gone(v), f"{where}: masked but drawn as {v}")
                continue
            if segments:
                k = int(x[i, j])
                text, colour = m.clabel[k]
                if text.startswith("_"):
                    hidden += 1
                    t.ok(gone(v), f"{where}: value {k} ({text}) is not to be shown but drawn as {v}")
                    continue
                t.ok(not gone(v), f"{where}: value {k} is not drawn")
                t.eq(label[round(float(v))], text, f"{where}: label")
                t.ok(np.allclose(im.cmap(im.norm(v)), to_rgba(colour), atol=0.01), f"{where}: colour of {text}")
                shown += 1
                continue
            t.ok(not gone(v), f"{where}: value {x[i, j]} is not drawn")
            if not smoothing:
                t.ok(abs(v - x[i, j]) <= 1e-4 * max(1, abs(x[i, j])) if not m.log_scale else abs(v - x[i, j]) < 1e-4, f"{where}: {v} drawn instead of {x[i, j]}")
            else:
                ok = ~hide[:, j]
                lo, hi = x[ok, j].min(), x[ok, j].max()
                tol = 1e-3 * max(abs(lo), abs(hi))
                t.ok(lo - tol <= v <= hi + tol, f"{where}: smoothed to {v}, outside {lo}..{hi}")
            shown += 1
    # gaps
    if ftype != "cpr-simulation":
        if ftype == "model":
            good = np.flatnonzero(~lost)
            res = np.diff(time).min()
            for i in np.flatnonzero(np.diff(time[good]) > 1.2 * res):
                for f in (0.1, 0.5, 0.9):
                    x0 = time[good[i]] + f * (time[good[i + 1]] - time[good[i]])
                    for j in show[:3]:
                        # the first profile without data after the last good one is kept
                        t.ok(gone(at(ax, im, x0, z[j])), f"{name} in the gap at {x0:.3f} is drawn")
                t.label("gap of the model")
        else:
            limit = LIMIT.get(ftype, 10) / 60
            ends = np.r_[0, time, 24]
            for i in np.flatnonzero(np.diff(ends) > 1.02 * limit):
                for f in (0.1, 0.5, 0.9):
                    x0 = ends[i] + f * (ends[i + 1] - ends[i])
                    for j in show[:3]:
                        v = at(ax, im, x0, z[j])
                        t.ok(gone(v), f"{name} in the gap at {x0:.3f}: drawn as {v}")
                t.label("gap")
            dt = np.diff(time)
            near = np.flatnonzero(dt < 0.98 * limit)
            near = np.unique(np.r_[near[::20], near[dt[near] > 0.08]])
            for i in near.astype(int):
                for f in (0.25, 0.75):
                    for j in show[:3]:
                        k = i + (f > 0.5)
                        v = at(ax, im, time[i] + f * dt[i], z[j])
                        if segments and m.clabel[int(x[k, j])][0].startswith("_"):
                            continue
                        t.ok(gone(v) == bool(hide[k, j]), f"{name} next to {time[k]:.4f}: drawn as {v}")
            # the first and last profile reach half a step outwards
            for k, n, sign in ((0, 1, -1), (nt - 1, nt - 2, 1)):
                edge = abs((24 if sign > 0 else 0) - time[k])
                if nt < 2 or edge > 0.98 * limit or abs(time[k] - time[n]) > 0.98 * limit:
                    continue
                x0 = time[k] + sign * min(0.4 * abs(time[k] - time[n]), edge)
                for j in show[:3]:
                    if not (segments and m.clabel[int(x[k, j])][0].startswith("_")):
                        v = at(ax, im, x0, z[j])
                        t.ok(gone(v) == bool(hide[k, j]), f"{name} at the end of the day {x0:.4f}: drawn as {v}")
    t.ok(np.allclose(ax.get_ylim(), (0, 10 if name in ("number_concentration", "fall_velocity") else opt.max_y)), f"height limits of {name}: {ax.get_ylim()}")
    if name not in ("number_concentration", "fall_velocity"):
        t.eq(ax.get_ylabel(), f"Height (km {'AGL' if opt.plot_above_ground else 'AMSL'})", "height label")
    t.mark(shown and (hidden or len(time) > 1 and np.diff(time).max() > 1.3))
    t.label("2D " + ("status" if segments else "log" if m.log_scale else "linear"))
    t.label("smoothed", smoothing)


def check_1d(t, ax, case, info, name, m, opt, channel, position):
    x, hide, units, nd = info["vars"][name]
    mul, add, text = UNITS.get(name, (1, 0, None))
    x = x * mul + add
    hide = hide.copy()
    time = info["time"]
    ftype = case["type"]
    if channel is not None:
        x, hide = x[:, channel], hide[:, channel].copy()
        if name == "tb":
            hide |= info["bad"]
    if m.mask_zeros:
        hide |= x == 0
    points, curves = [], []
    for line in ax.lines:
        a = np.asarray(line.get_xdata(), float)
        b = ma.filled(ma.masked_invalid(ma.array(line.get_ydata(), dtype=float)), np.nan)
        if len(a) == 2 and np.all(np.asarray(line.get_xdata()) == [0, 1]) and b[0] == b[1] == 0:
            continue  # zero line
        good = np.isfinite(b)
        if line.get_marker() in ("None", None, "", " "):
            for part in np.split(np.arange(len(b)), np.flatnonzero(~good)):  # a missing value breaks the line
                part = part[good[part]]
                if len(part):
                    curves.append((a[part], b[part]))
        else:
            points.append((a[good], b[good]))
    a = np.concatenate([q[0] for q in points]) if points else np.zeros(0)
    b = np.concatenate([q[1] for q in points]) if points else np.zeros(0)
    order = np.argsort(time)
    use = ~hide
    t.ok(np.isin(np.round(a, 5), np.round(time[use], 5)).all(), f"{name}: points drawn at times without data")
    for k in np.flatnonzero(use):
        at_k = np.abs(a - time[k]) < 1e-5
        t.ok(at_k.any(), f"{name}: value at {time[k]:.4f} is not drawn")
        t.ok(np.allclose(b[at_k], x[k], rtol=1e-4, atol=1e-4), f"{name} at {time[k]:.4f}: {b[at_k]} drawn instead of {x[k]}")
    lo, hi = ax.get_ylim()
    if use.any():
        t.ok(lo <= x[use].min() + 1e-3 * abs(x[use].min()) and hi >= x[use].max() - 1e-3 * abs(x[use].max()), f"{name}: values outside the limits {lo}..{hi}")
    t.eq(ax.get_ylabel(), text or SHOWN[units], f"units of {name}")
    # running mean
    flags = None
    if ftype == "mwr-l1c" and channel is not None and name == "tb":
        flags = info["flags"][:, channel] > 0
    elif ftype in ("mwr-single", "mwr-multi"):
        flags = info["flags"] > 0
    if name == "tb":
        flagged = flags & use
        t.label("flagged", flagged.any())
    if not m.moving_average:
        t.ok(not curves, f"{name}: running mean drawn")
    else:
        ca = np.concatenate([q[0] for q in curves]) if curves else np.zeros(0)
        cb = np.concatenate([q[1] for q in curves]) if curves else np.zeros(0)
        raw = ~info["vars"][name][1] if channel is None else ~info["vars"][name][1][:, channel]
        if name == "tb":
            raw &= ~info["bad"]
        elif m.mask_zeros:
            raw &= x != 0
        smooth = raw & ~flags if flags is not None else raw
        t.ok(np.isin(np.round(ca, 5), np.round(time[smooth], 5)).all(), f"{name}: running mean at times without good data")
        if name != "wind_direction":
            t.ok(len(ca) == smooth.sum(), f"{name}: {len(ca)} points of running mean for {smooth.sum()} good values")
            idx = np.searchsorted(time, ca - 1e-5)
            for k, v in zip(idx[::7], cb[::7]):
                near = smooth & (np.abs(np.arange(len(time)) - k) <= 2)
                tol = 1e-3 * (np.abs(x[near]).max() + 1e-9)
                t.ok(x[near].min() - tol <= v <= x[near].max() + tol, f"{name}: running mean {v} at {time[k]:.3f} outside the nearby values")
        else:
            t.ok(np.all((cb >= 0) & (cb <= 360)), "running mean of wind direction outside 0-360")
        for q in curves:
            t.ok(len(q[0]) < 2 or np.diff(q[0]).max() < 1.02 * LIMIT.get(ftype, 10) / 60, f"{name}: running mean drawn across a gap")
    t.mark(use.any() and not use.all())
    t.label("1D")


@c.sub("figures", plot_case(), quick=50, thorough=900, shards=8)
def _(case, t):
    r = rng(case["seed"] + 1)
    path, info = build(t, case)
    ftype = case["type"]
    opt = PlotParameters(dpi=case["dpi"], max_y=case["max_y"], title=case["title"], subtitle=case["subtitle"], mark_data_gaps=case["gapmarks"], grid=case["grid"], edge_tick_labels=case["edges"], show_sources=case["sources"] != "no", footer_text=case["footer"], plot_above_ground=case["above"], raise_on_empty=case["raise"], minor_ticks=case["minor"])
    own = None
    if case["own"] == "range":
        own = PlotMeta(cmap="plasma", clabel="own", plot_range=(0.5, 7), moving_average=False)
    elif case["own"] == "log":
        own = PlotMeta(plot_range=(1e-3, 10), log_scale=True, clabel="own")
    elif case["own"] == "plain":
        own = PlotMeta(moving_average=False, zero_line=True)
    if any(isinstance(meta_of(ftype, n).clabel, (tuple, list)) for n in case["vars"]):
        own = None
    opt.plot_meta = own
    if not case["options"]:
        opt = PlotParameters()
    request, expect = [], []
    for n in case["vars"]:
        if n in ("tb", "irt"):
            top = case["channels"] if n == "tb" else 2
            k = top if case["bad_channel"] else int(r.integers(0, top))
            request.append(f"{n}_{k}")
            expect.append((n, k))
        else:
            request.append(n)
            expect.append((n, None))
    if case["unknown"] == "first":
        request.insert(0, "no_such")
    elif case["unknown"] == "last":
        request.append("no_such")
    elif case["unknown"] == "only":
        request = ["no_such", "neither_this"]
    with open(path, "rb") as f:
        before = hashlib.sha256(f.read()).hexdigest()
    listed = sorted(os.listdir(os.path.dirname(path)))
    out = t.path("figure.png") if case["save"] else None
    figures = []
    real = plt.show
    plt.show = lambda *a, **k: figures.extend(plt.figure(n) for n in plt.get_fignums())
    error = None
    try:
        dims = generate_figure(path, list(request), show=True, output_filename=out, **({"options": opt} if case["options"] else {}))
    except PlottingError as e:
        error = e
    finally:
        plt.show = real
    left = plt.get_fignums()
    plt.close("all")
    t.eq(left, [], "figures left open")
    with open(path, "rb") as f:
        t.eq(hashlib.sha256(f.read()).hexdigest(), before, "plotted file")
    t.eq(sorted(set(os.listdir(os.path.dirname(path))) - {"figure.png"}), listed, "files next to the plotted one")
    metas = [own if own is not None and case["options"] else meta_of(ftype, n) for n, _ in expect]
    if case["unknown"] == "only":
        t.ok(error is not None, "no exception although no variable is in the file")
        t.label("unknown variables only")
        return
    bad = case["bad_channel"] and any(k is not None for _, k in expect)
    if bad:
        t.ok(error is not None, "no exception for a channel that is not in the file")
        return
    empty = []
    partly = []
    for (n, k), m in zip(expect, metas):
        hide = info["vars"][n][1].copy()
        x = info["vars"][n][0]
        empty.append(bool(hide.all() if k is None else hide[:, k].all()))
        if m.mask_zeros or n == "cloud_fraction":
            hide |= x == 0
        if k is not None:
            hide = hide[:, k] | (info["bad"] if n == "tb" else False)
        if hide.ndim == 2:
            keep = info["agl"] / 1000 + (0 if opt.plot_above_ground else case["alt"] / 1000) <= opt.max_y
            hide = hide[:, keep]
        partly.append(bool(hide.all()) or isinstance(m.clabel, (tuple, list)))
    if error is not None:
        t.ok((opt.raise_on_empty or ftype == "model") and any(a or b for a, b in zip(empty, partly)), f"exception although there are data: {error!r}")
        t.label("empty: exception")
        return
    if opt.raise_on_empty:
        for (n, k), e, m in zip(expect, empty, metas):
            t.ok(not e or isinstance(m.clabel, (tuple, list)), f"no exception although {n} is empty")
    t.eq(len(figures), 1, "figures shown")
    fig = figures[0]
    axes = panels(fig)
    t.eq(len(axes), len(expect), "panels")
    for ax, (n, k), m, e in zip(axes, expect, metas, empty):
        name = f"Long name of {n}" + (f" (channel {k + 1})" if n == "tb" else "")
        t.eq(ax.get_title(), name if opt.title else "", f"title of {n}")
        xlim = (0, 517.84) if ftype == "cpr-simulation" else (0, 24)
        t.ok(np.allclose(ax.get_xlim(), xlim), f"time limits {ax.get_xlim()}")
        if ftype != "cpr-simulation" and ax is axes[-1]:
            ticks = {float(h): w.get_text() for h, w in zip(np.round(ax.get_xticks(), 3), ax.get_xticklabels())}
            t.eq(ticks, {float(h): f"{h:02d}:00" if opt.edge_tick_labels or 0 < h < 24 else "" for h in range(0, 25, 4)}, "time labels")
            t.eq(len(ax.xaxis.get_minorticklocs()) > 0, bool(opt.minor_ticks or opt.grid), "minor ticks")
        t.eq([any(q.get_visible() for q in a.get_gridlines()) for a in (ax.xaxis, ax.yaxis)], [opt.grid] * 2, f"grid lines of {n}")
        texts = [w.get_text() for w in ax.texts]
        if opt.show_sources:
            src = {"file": "Data sources:\nInstrument A\nInstrument B", "variable": f"Data source:\nSource of {n}"}.get(case["sources"])
            if ftype == "model" and case["sources"] != "variable":
                src = "Data source:\nECMWF"
            t.eq([w for w in texts if w.startswith("Data source")], [src] if src else [], f"sources of {n}")
        if info["vars"][n][3] == 1 or k is not None:
            check_1d(t, ax, case, info, n, m, opt, k, axes.index(ax))
        else:
            check_2d(t, r, ax, case, info, n, m, opt)
        t.label("empty panel", e)
    t.eq(axes[-1].get_xlabel(), "Distance along track (km)" if ftype == "cpr-simulation" else "Time (UTC)", "label of the time axis")
    words = [w.get_text() for w in fig.texts]
    sup = fig._suptitle.get_text() if getattr(fig, "_suptitle", None) is not None else None
    t.eq(sup, "Test site, 9 Jul 2022" if opt.subtitle else None, "subtitle")
    if opt.footer_text:
        t.ok(any(" ".join(w.split()) == " ".join(case["footer"].split()) for w in words), "footer text")
    t.ok(min(dims.margin_left, dims.margin_right, dims.margin_top, dims.margin_bottom) >= 0, f"margins {dims}")
    if out:
        img = plt.imread(out)
        t.ok(abs(img.shape[1] - dims.width) <= 1 and abs(img.shape[0] - dims.height) <= 1, f"picture of {img.shape[:2]} pixels, reported {dims}")
        dark = img[..., :3].mean(axis=2) < 0.6
        h, w = dark.shape
        x0, x1 = dims.margin_left, w - 1 - dims.margin_right
        y0, y1 = dims.margin_top, h - 1 - dims.margin_bottom
        best = lambda s: s.mean(axis=0).max() if s.size else 0  # noqa
        rows, cols = slice(y0 + 3, y1 - 3), slice(x0 + 3, x1 - 3)
        need = 0.6 if len(axes) > 1 else 0.9
        t.ok(best(dark[rows, max(0, x0 - 2):x0 + 3]) > need, f"no left frame at the reported margin {dims}")
        t.ok(best(dark[rows, x1 - 2:x1 + 3]) > need or info["vars"][expect[0][0]][3] == 1 or len(axes) > 1, f"no right frame at the reported margin {dims}")
        t.ok(best(dark[max(0, y0 - 2):y0 + 3, cols].T) > 0.7, f"no upper frame at the reported margin {dims}")
        t.ok(best(dark[y1 - 2:y1 + 3, cols].T) > 0.7, f"no lower frame at the reported margin {dims}")
        t.label("saved")


# --- figures of model evaluation -------------------------------------------------
VMIN = {"cf": 0, "iwc": -7, "lwc": -5}
VMAX = {"cf": 1, "iwc": -3, "lwc": -2}
LEAST = {"cf": 0.0, "iwc": 1e-7, "lwc": 1e-5}
NAMES = {"cf": ["cf_V", "cf_A"], "iwc": ["iwc", "iwc_att", "iwc_rain"], "lwc": ["lwc"]}


@st.composite
def l3_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"product": S("cf", "cf", "iwc", "lwc"), "type": S("group", "statistic"), "stats": draw(st.lists(st.sampled_from(["error", "area", "hist", "vertical"]), min_size=1, max_size=4, unique=True)), "adv": S(True, False), "include": S(True, False), "list": S("all", "all", "pair", "one"),
            "nt": S(24, 12, 5), "nl": S(10, 4, 25), "levels": S("same", "same", "moving"), "mask_model": S("some", "some", "some", "none", "all", "columns"), "mask_obs": S("some", "some", "some", "none", "all", "columns"), "zeros": S(True, False), "overlap": S("random", "inside", "apart", "equal", "more", "more"), "title": S(True, False), "order": S(False, True), "save": S("no", "image", "path"), "seed": draw(st.integers(0, 2**31))}


def l3_file(t, case):
    r = rng(case["seed"])
    p, nt, nl = case["product"], case["nt"], case["nl"]
    step = 24 / nt
    time = (np.arange(nt) + 0.5) * step
    z = np.sort(r.uniform(100, 14000, nl))
    z = z + np.arange(nl) * 60
    height = np.tile(z, (nt, 1))
    if case["levels"] == "moving":
        height = height + r.uniform(-15, 15, (nt, 1))
    names = ["model_" + p] + NAMES[p] + ([n + "_adv" for n in NAMES[p]] if case["adv"] else [])
    fields = {}
    for n in names:
        lo, hi = LEAST[p], 10.0 ** VMAX[p] if p != "cf" else 1.0
        x = r.uniform(0.02, 1.0, (nt, nl)) if p == "cf" else 10 ** r.uniform(VMIN[p] - 0.4, VMAX[p] + 0.2, (nt, nl))
        if case["zeros"]:
            x[r.random((nt, nl)) < 0.3] = 0
        kind = case["mask_model"] if n.startswith("model_") else case["mask_obs"]
        mask = {"some": r.random((nt, nl)) < 0.3, "none": np.zeros((nt, nl), bool), "all": np.ones((nt, nl), bool), "columns": np.tile((r.random(nt) < 0.4)[:, None], (1, nl))}[kind]
        if not n.startswith("model_") and case["mask_obs"] == "some" and case["mask_model"] == "some" and case["overlap"] != "random":
            m0 = fields["model_" + p][1]
            mask = {"inside": m0 | mask, "apart": ~m0, "equal": m0.copy(), "more": m0 & mask}[case["overlap"]]
            if case["overlap"] in ("equal", "more"):
                mask |= fields["model_" + p][2] & (r.random((nt, nl)) < 0.5)
                x = np.where(fields["model_" + p][2], x, np.maximum(x, 2 * lo + 0.01 * (p == "cf")))
        x = x.astype("f4")
        hide = mask | (x <= 0) | (x < np.float32(lo))
        fields[n] = (x.astype(float), mask, hide)
    path = t.path("l3.nc")
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("time", nt)
        nc.createDimension("level", nl)
        nc.year, nc.month, nc.day = "2022", "07", "09"
        nc.location, nc.model_id, nc.model_name = "Test site", "ecmwf", "The ECMWF model"
        order = names[::-1] if case["order"] else names
        v = nc.createVariable("time", "f4", ("time",))
        v[:] = time
        v = nc.createVariable("model_height", "f4", ("time", "level"))
        v[:] = height
        for n in order:
            v = nc.createVariable(n, "f4", ("time", "level"), fill_value=9.96921e36)
            v[:] = ma.array(fields[n][0], mask=fields[n][1])
    return path, time, height / 1000, fields


def mesh(t, ax, what):
    q = [a for a in ax.collections if hasattr(a, "get_coordinates")]
    t.eq(len(q), 1, f"meshes of {what}")
    return q[0]


def cell(q, x, y):
    """Value of the quadrilateral of the mesh around a point (columns are along one index of nearly vertical cells)."""
    e = q.get_coordinates()
    if e[0, -1, 0] == e[0, 0, 0] or abs(e[0, -1, 0] - e[0, 0, 0]) < abs(e[-1, 0, 0] - e[0, 0, 0]):
        e = np.swapaxes(e, 0, 1)
        a = ma.array(q.get_array()).reshape(e.shape[1] - 1, e.shape[0] - 1).T
    else:
        a = ma.array(q.get_array()).reshape(e.shape[0] - 1, e.shape[1] - 1)
    j = int(np.searchsorted(e[0, :, 0], x)) - 1
    if not 0 <= j < a.shape[1]:
        return None
    w = (x - e[0, j, 0]) / (e[0, j + 1, 0] - e[0, j, 0])
    ys = (1 - w) * e[:, j, 1] + w * e[:, j + 1, 1]
    i = int(np.searchsorted(ys, y)) - 1
    return a[i, j] if 0 <= i < a.shape[0] else None


def known(case, names, t):
    p = case["product"]
    own = NAMES[p][::-1] if case["order"] and names is None else NAMES[p]
    std = ["model_" + p] + own
    adv = ["model_" + p] + [n + "_adv" for n in own] if case["adv"] else None
    if names is not None:
        std = [n for n in std if n in names]
        adv = [n for n in adv if n in names] if adv else None
    if adv is not None and len(adv) < len(std):
        adv = None
    return [std] + ([adv] if adv and adv != std and case["include"] else [])


@c.sub("evaluation figures", l3_case(), quick=30, thorough=500, shards=8)
def _(case, t):
    path, time, height, fields = l3_file(t, case)
    p = case["product"]
    stats = tuple(case["stats"])
    names = None
    if case["list"] == "pair":
        names = ["model_" + p, NAMES[p][0]] + ([NAMES[p][0] + "_adv"] if case["adv"] else [])
    elif case["list"] == "one" and case["type"] == "group":
        names = [NAMES[p][-1]]
    sets = known(case, names, t)
    with open(path, "rb") as f:
        before = hashlib.sha256(f.read()).hexdigest()
    kw = {}
    if case["save"] == "image":
        kw["image_name"] = t.path("a picture.png")
    elif case["save"] == "path":
        kw["save_path"] = os.path.dirname(path) + "/"
    figures, bitmaps = [], []
    real = plt.show

    def keep(*a, **k):
        figures.append(plt.gcf())

    plt.show = keep
    try:
        dims = generate_L3_day_plots(path, p, var_list=None if names is None else list(names), fig_type=case["type"], stats=stats, show=True, title=case["title"], include_advection=case["include"], **kw)
    finally:
        plt.show = real
    left = plt.get_fignums()
    plt.close("all")
    t.eq(left, [], "figures left open")
    with open(path, "rb") as f:
        t.eq(hashlib.sha256(f.read()).hexdigest(), before, "plotted file")
    jobs = [(s, None) for s in sets] if case["type"] == "group" else [(s, k) for s in sets for k in stats]
    t.eq(len(figures), len(jobs), "figures")
    t.eq(len(dims), len(jobs), "reported dimensions")
    written = sorted(set(os.listdir(os.path.dirname(path))) - {"l3.nc"})
    if case["save"] == "no":
        t.eq(written, [], "files")
    elif case["save"] == "image":
        t.eq(written, ["a picture.png"], "files")
        img = plt.imread(t.path("a picture.png"))
        t.ok(abs(img.shape[1] - dims[-1].width) <= 1 and abs(img.shape[0] - dims[-1].height) <= 1, f"picture of {img.shape[:2]} pixels, reported {dims[-1]}")
    else:
        blank = fields["model_" + p][2].all() or any(f[2].all() for f in fields.values())
        t.ok(len(written) == len(jobs) or blank and 0 < len(written) < len(jobs), f"files {written} for {len(jobs)} figures")
        t.ok(all(w.startswith("20220709_") and w.endswith(".png") for w in written), f"files {written}")
    r = rng(case["seed"] + 5)
    for (group, stat), fig in zip(jobs, figures):
        axes = panels(fig)
        if stat is None:
            t.eq(len(axes), len(group), "panels")
        for n, ax in zip(group, axes) if stat is None else zip(group[1:], axes):
            x, mask, hide = fields[n]
            what = f"{stat or 'field'} of {n}"
            word = {"cf": "Cloud fraction", "iwc": "Ice water content", "lwc": "Liquid water content"}[p]
            if stat is None:
                if case["title"]:
                    want = f"{word}, The ECMWF model" if n.startswith("model_") else {"cf_V": "Cloud fraction, Volume", "cf_A": "Cloud fraction, Area"}.get(n.replace("_adv", ""), word)
                    t.eq(ax.get_title(), want, f"title of {what}")
                    t.eq(any("advection" in w.get_text() for w in ax.texts), "adv" in n, f"note on advection time, {n}")
                t.ok(np.allclose(ax.get_xlim(), (0, 24)) and np.allclose(ax.get_ylim(), (0, 12)), f"limits of {what}")
                q = mesh(t, ax, what)
                t.ok(np.allclose(q.get_clim(), (VMIN[p], VMAX[p])), f"colour limits {q.get_clim()}")
                y = np.log10(np.maximum(x, 1e-30)) if p != "cf" else x
                for i in range(len(time)):
                    for j in r.permutation(height.shape[1])[:6]:
                        v = cell(q, time[i] + 0.01, height[i, j] if case["levels"] == "same" else height[:, j].mean())
                        at_ = f"{n} at {time[i]:.2f} h, {height[i, j]:.3f} km"
                        if hide[i, j]:
                            t.ok(gone(v), f"{at_}: nothing to show but drawn as {v}")
                        elif abs(y[i, j] - VMIN[p]) > 1e-5:
                            t.ok(not gone(v) and abs(v - y[i, j]) < 1e-4, f"{at_}: {v} drawn instead of {y[i, j]}")
                t.mark(hide.any() and not hide.all())
                t.label("group")
                continue
            mx, _, mh = fields[group[0]]
            both = ~mh & ~hide
            if both.any() or not hide.all():
                both &= mx >= x[~hide].min() if (~hide).any() else False
            if case["title"]:
                title = {"cf_V": "Cloud fraction volume", "cf_A": "Cloud fraction area"}.get(n.replace("_adv", ""), word) + (" (Advection time)" if "adv" in n else "")
                if stat in ("hist", "vertical"):
                    want = title
                else:
                    want = f"{title} vs The ECMWF model"
                if not (mh.all() or hide.all() or (stat == "error" and not both.any())):
                    t.eq(ax.get_title(), want, f"title of {what}")
            if mh.all() or hide.all():
                t.label("nothing to compare")
                continue
            least = x[~hide].min()
            mh2 = mh | (mx < least)
            both = ~mh2 & ~hide
            texts = " ".join(w.get_text() for w in ax.texts)
            if stat == "error":
                if not both.any():
                    continue
                err = (x - mx) * 100 if p == "cf" else (mx - x) / np.where(hide, 1, x) * 100
                got = float(texts.split("error:")[1].split("%")[0])
                lo, hi = np.median(err[both]) - 0.02, np.median(err[both]) + 0.02
                slack = 2e-4 * abs(np.median(err[both]))
                t.ok(lo - slack <= got <= hi + slack, f"{what}: median error {got}, not {np.median(err[both]):.3f}")
                t.eq("absolute" in texts, p == "cf", f"kind of error of {n}")
                q = mesh(t, ax, what)
                for i in range(len(time) - 1):
                    for j in r.permutation(height.shape[1] - 1)[:6]:
                        v = cell(q, time[i] + 0.3 * (time[i + 1] - time[i]), height[i, j] + 0.3 * (height[i, j + 1] - height[i, j]))
                        if case["levels"] != "same":
                            continue
                        if not both[i, j]:
                            t.ok(gone(v), f"{what} at {i}, {j}: nothing to compare but drawn as {v}")
                        else:
                            t.ok(not gone(v) and abs(v - err[i, j]) < 0.011 + 3e-4 * abs(err[i, j]), f"{what} at {i}, {j}: {v} instead of {err[i, j]}")
                t.label("error")
            elif stat == "area":
                valid = ~mh2 | ~hide
                want = 100 * both.sum() / valid.sum()
                got = float(texts.split("area:")[1].split("%")[0])
                t.ok(abs(got - want) < 0.011, f"{what}: common area {got} %, not {want:.3f} %")
                q = mesh(t, ax, what)
                legend = {w.get_text(): h.get_facecolor() for w, h in zip(ax.get_legend().get_texts(), ax.get_legend().get_patches())}
                t.eq(set(legend), {"Model", "Common", "Observation"}, "legend")
                for i in range(len(time)):
                    for j in r.permutation(height.shape[1])[:6]:
                        if case["levels"] != "same":
                            continue
                        v = cell(q, time[i] + 0.01, height[i, j])
                        kind = {(0, 0): None, (1, 0): "Model", (1, 1): "Common", (0, 1): "Observation"}[int(not mh2[i, j]), int(not hide[i, j])]
                        if kind is None:
                            colour = (1, 1, 1, 1)
                            if gone(v):
                                continue
                        else:
                            colour = legend[kind]
                            t.ok(not gone(v), f"{what} at {i}, {j}: {kind} not drawn")
                        t.ok(np.allclose(to_rgba(q.cmap(q.norm(v))), colour, atol=0.02), f"{what} at {i}, {j}: {kind or 'no data'} drawn in another colour")
                t.mark(both.any() and (~valid).any())
                t.label("area")
            elif stat == "hist":
                bars = {}
                for b in ax.patches:
                    if not b.get_label().startswith("_"):
                        bars[b.get_label().split(":")[0]] = here = []
                    here.append((b.get_x(), b.get_x() + b.get_width(), b.get_height()))
                t.eq(set(bars), {"Model", "Observation"}, f"histograms of {n}")
                dec = 1 if p == "cf" else 6
                for k, vals in (("Model", mx[~mh]), ("Observation", x[~hide])):
                    vals = np.sort(np.round(vals, dec))
                    top = max(b[1] for b in bars[k])
                    if k == "Model":
                        vals = np.minimum(vals, top)
                    b = bars[k]
                    eps = 0.1 ** dec / 1000
                    near = np.zeros(len(b), bool)
                    for q_, (lo, hi, hgt) in enumerate(b):
                        last = q_ == len(b) - 1
                        n0 = np.sum((vals >= lo + eps) & (vals < hi - eps))
                        n1 = np.sum((vals >= lo - eps) & (vals <= hi + eps))
                        t.ok(n0 / len(vals) - 1e-4 <= hgt <= n1 / len(vals) + 1e-4, f"{what}: {k} bar {lo:.3g}..{hi:.3g} is {hgt:.4f}, expected {n0 / len(vals):.4f}")
                    inside = np.sum((vals >= b[0][0] - eps) & (vals <= top + eps))
                    if not np.any(np.abs(vals - b[0][0]) < eps) or k == "Observation":
                        t.ok(abs(sum(q_[2] for q_ in b) - inside / len(vals)) < 1e-4, f"{what}: {k} bars sum to {sum(q_[2] for q_ in b)}")
                t.label("hist")
            else:
                got = {ln.get_label(): (np.asarray(ln.get_xdata(), float) if not ma.isMA(ln.get_xdata()) else ma.filled(ln.get_xdata(), np.nan), np.asarray(ln.get_ydata(), float)) for ln in ax.lines if not ln.get_label().startswith("_")}
                t.eq(set(got), {"The ECMWF model", "Observation", "Mean of The ECMWF model", "Mean of observation"}, f"lines of {n}")
                for k, (vals, h) in {"The ECMWF model": (mx, mh), "Observation": (x, hide)}.items():
                    with np.errstate(invalid="ignore"):
                        want = np.array([vals[~h[:, j], j].mean() if (~h[:, j]).any() else np.nan for j in range(vals.shape[1])])
                    gx, gy = got[k]
                    if case["levels"] == "same":
                        t.ok(np.allclose(gy, height[0], atol=1e-4), f"{what}: heights of {k}")
                    t.ok(np.allclose(gx, want, rtol=1e-4, atol=1e-12, equal_nan=True), f"{what}: profile of {k} is {gx}, expected {want}")
                t.label("vertical")


c.main()
