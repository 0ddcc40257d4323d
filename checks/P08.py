import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
from numpy import ma

from cloudnetpy.categorize import generate_categorize
from cloudnetpy.exceptions import ValidTimeStampError
from scene import N_GRID, Scene, scene_case

c = Check(
    "P08",
    "Radar, lidar, model and optionally radiometer and disdrometer files of a random scene (cadences, gaps, masks, grids, altitudes, folded velocities, radar types, model spans) are categorized; every gridded variable of the output is "
    "compared, value by value and mask by mask, with a reference gridding computed sample by sample.  Non-trivial: at least two kept steps with echoes and at least one step or pixel lost to a gap.",
    ["samples closer than 5 % of a step to a bin edge are not generated", "velocities whose phasors almost cancel are not compared", "atmoslib's wet-bulb temperature is trusted", "stripe filter: one radar sample per step"],
)


@c.sub("grid", scene_case(), quick=90, thorough=1500, shards=8)
def _(case, t):
    compare(case, t)


@c.sub("stripes", scene_case(K=325, stride=1, m=30, s0=300, stripes=True, weather="noise", lidar_top=1.0, lidar_dt=45.0, lidar_gap=0.0, lidar_mask=0.0, gap=0.0, model_span="day", density="one"), quick=3, thorough=60, shards=8)
def _(case, t):
    """Scenes long enough for the stripe filter."""
    compare(case, t)


def compare(case, t):
    sc = Scene(case)
    files, out = sc.write(t.dir), t.path("o.nc")
    g = sc.grid()
    n = len(sc.valid)
    if n < 2:
        try:
            generate_categorize(files, out, options=sc.options())
        except ValidTimeStampError:
            t.ok(not os.path.exists(out), "a file was written with fewer than two profiles")
            t.label("too few profiles")
            return
        t.fail(f"no ValidTimeStampError with {n} profiles")
    uuid = generate_categorize(files, out, uuid="5e5fb1c4-2c21-4f6f-9f9e-0f7e3c5d2a11", options=sc.options())
    with netCDF4.Dataset(out) as nc:
        nc.set_auto_mask(True)
        t.eq(str(uuid), nc.file_uuid, "uuid")
        t.eq((nc.year, nc.month, nc.day, nc.location, nc.cloudnet_file_type), ("2023", "05", "17", "Test", "categorize"), "global attributes")
        t.eq(set(nc.source_file_uuids.split(", ")), {f"{k}-uuid" for k in files}, "source uuids")
        t.same(t.var(nc, "time")[:], g["time"], "time", rtol=2e-7)
        t.same(t.var(nc, "height")[:], sc.height, "height", rtol=1e-7)
        t.same(t.var(nc, "radar_frequency")[:], case["freq"], "radar_frequency")
        t.same(t.var(nc, "lidar_wavelength")[:], 1064, "lidar_wavelength")
        i = [np.argmin(np.abs(sc.rt - x)) for x in g["time"]]
        for k, x in (("latitude", sc.lat), ("longitude", sc.lon), ("altitude", sc.alt)):
            got = t.var(nc, k)[:]
            x = np.broadcast_to(x, len(sc.rt))[i] if np.ndim(got) else x
            t.same(got, x, k, rtol=1e-6)
        z = t.var(nc, "Z")[:]
        for k in ("gas", "liquid", "rain", "melting"):
            z = z - ma.filled(t.var(nc, f"radar_{k}_atten")[:], 0)
        t.same(z, g["Z"], "Z without attenuation corrections", rtol=1e-5, atol=2e-3)
        skip = sc.ill
        v = t.var(nc, "v")[:]
        t.eq(np.array_equal(ma.getmaskarray(v), ma.getmaskarray(g["v"])), True, "mask of v equals the reference")
        d = ma.abs(v - g["v"])
        d = np.minimum(d, ma.abs(d - 2 * g["nyquist_velocity"])) if not case["dealias"] else d
        d = ma.array(d, mask=skip | ma.getmaskarray(v))
        t.ok(not d.count() or d.max() < 2e-3, lambda: f"v differs by {d.max()} at {np.unravel_index(ma.argmax(d), d.shape)}")
        t.same(t.var(nc, "v_sigma")[:], g["v_sigma"], "v_sigma", rtol=1e-3, atol=1e-5)
        t.same(t.var(nc, "nyquist_velocity")[:], g["nyquist_velocity"], "nyquist_velocity")
        for k in ("width", "ldr", "sldr"):
            t.eq(k in nc.variables, k in g, f"{k} in output")
            if k in g:
                t.same(nc[k][:], g[k], k, rtol=1e-4, atol=1e-4)
        t.same(t.var(nc, "beta")[:], g["beta"], "beta", rtol=1e-5, atol=0)
        t.same(t.var(nc, "Tw")[:], g["Tw"], "Tw", rtol=0, atol=0.02)
        for k in ("lwp", "lwp_error"):
            t.eq(k in nc.variables, k in g, f"{k} in output")
            if k in g:
                t.same(nc[k][:], g[k], k, rtol=1e-4, atol=1e-7)
        t.eq("rainfall_rate" in nc.variables, case["rr"] or case["dis"] != "none", "rainfall_rate in output")
        if case["dis"] != "none":
            t.same(nc["rainfall_rate"][:], g["rate"], "rainfall_rate of the disdrometer", rtol=1e-4, atol=1e-12)
        elif case["rr"]:
            t.same(nc["rainfall_rate"][:], g["rr_radar"], "rainfall_rate of the radar", rtol=1e-4, atol=1e-12)
        t.same(t.var(nc, "model_time")[:], sc.mt, "model_time")
        t.same(t.var(nc, "model_height")[:], sc.mheight, "model_height", rtol=1e-6)
        for k, x in (("temperature", sc.T), ("pressure", sc.P), ("q", sc.q), ("uwind", sc.u), ("vwind", -sc.u)):
            t.same(t.var(nc, k)[:], ma.array(x, mask=np.repeat(sc.mgap[:, None], x.shape[1], 1)), k, rtol=2e-4, atol=1e-4 if "wind" in k else 1e-9)
    lost = len(sc.valid) < case["K"] or sc.lost.any() or (case["gap"] or case["lidar_gap"])
    t.mark(g["Z"].count() > 1 and g["beta"].count() > 1 and lost)
    t.label("folded", case["dealias"] is None and np.any(np.abs(sc.v) > sc.nyq.min()))
    t.label("stripe filter", len(sc.valid) and sc.n_stripe > 0)
    t.label("model gap", len(sc.valid) and sc.mgap.any())


c.main()
