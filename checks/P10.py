import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
from numpy import ma

import catref
from cloudnetpy.categorize import generate_categorize
from scene import Scene, attenuation_fields, fields_of, scene_case

c = Check(
    "P10",
    "Random multi-instrument scenes are categorized; each quality bit is compared, pixel by pixel, with what the gridded data, the target bits and the attenuation values of the same file imply, and rain_detected with a reference "
    "rain detection.  Non-trivial: at least one attenuation bit is set in some but not all pixels.",
    ["velocities within 1e-4 m/s of the clutter limit and rain thresholds within rounding are not compared", "X-band and 24 GHz radars are not combined with disdrometers (documented as unsupported)"],
)
Q = ("radar", "lidar", "clutter", "molecular", "attenuated_liquid", "corrected_liquid", "attenuated_rain", "corrected_rain", "attenuated_melting", "corrected_melting")


@c.sub("quality", scene_case(busy=True), quick=110, thorough=1500, shards=8)
def _(case, t):
    sc = Scene(case)
    g = sc.grid()
    if len(sc.valid) < 2:
        t.label("too few profiles")
        return
    files, out = sc.write(t.dir), t.path("o.nc")
    generate_categorize(files, out, options=sc.options())
    with netCDF4.Dataset(out) as nc:
        f, site = fields_of(sc, g, nc)
        z = nc["Z"][:]
        bits = np.asarray(nc["category_bits"][:])
        b = {k: (bits >> i) & 1 == 1 for i, k in enumerate(catref.BITS)}
        q = np.asarray(t.var(nc, "quality_bits")[:])
        got = {k: (q >> i) & 1 == 1 for i, k in enumerate(Q)}
        rain = np.asarray(nc["rain_detected"][:]) == 1
        amount = {k: ma.masked_invalid(nc[f"radar_{k}_atten"][:]) for k in ("gas", "liquid", "rain", "melting")}
    t.eq(int((q >> len(Q)).any()), 0, "undefined bits")
    f, site["freq"] = attenuation_fields(sc, g, f)

    def same(k, ref, skip=None):
        bad = got[k] != ref
        if skip is not None:
            bad &= ~skip
        t.ok(not bad.any(), lambda: f"{k}: {bad.sum()} pixels differ, first at {tuple(int(x) for x in np.argwhere(bad)[0])}: reported {got[k][bad][0]}")

    same("radar", catref.there(z))
    same("lidar", catref.there(f["beta"]))
    same("molecular", np.zeros(z.shape, bool))
    # rain
    close = np.zeros(len(rain), bool)
    zr = f["Z"]
    for s in (-5e-4, 5e-4):
        h = dict(f, Z=zr + s, v=f["v"] + s, Tw=f["Tw"] + s)
        close |= catref.is_rain(h, site) != catref.is_rain(f, site)
    ref = catref.is_rain(f, site)
    t.ok((ref == rain)[~close].all(), lambda: f"rain_detected is {rain.astype(int)}, expected {ref.astype(int)}")
    # clutter: near-zero velocity in the lowest gates of rain-free profiles, except next to cloud and precipitation
    slow = catref.clutter(f, rain)
    edge = np.abs(np.abs(f["v"].filled(9)) - 0.05) < 1e-4
    t.ok(not got["clutter"][:, 10:].any() and not got["clutter"][rain].any(), "clutter above the lowest gates or in rain")
    t.ok(not (got["clutter"] & ~slow & ~edge).any(), "clutter without near-zero velocity")
    t.ok(not (got["clutter"] & (b["falling"] | b["droplet"])).any(), "clutter pixel carries a falling or droplet bit")
    lost = slow & ~got["clutter"] & ~edge
    t.ok(not (lost & ~catref.near(b["falling"] | b["droplet"])).any(), "near-zero velocity far from hydrometeors is not reported as clutter")
    t.ok(not (lost & ~b["falling"]).any(), "dropped clutter is not falling")
    # attenuation
    att = catref.attenuation(f, site, b, rain)
    for k in ("liquid", "rain", "melting"):
        a = att[k]
        same(f"attenuated_{k}", a["on"])
        same(f"corrected_{k}", a["on"] & ~a["missing"])
        t.ok(not (got[f"corrected_{k}"] & ~got[f"attenuated_{k}"]).any(), f"{k}: corrected without being attenuated")
        has = catref.there(amount[k])
        t.ok(not (has & ~got[f"corrected_{k}"]).any(), f"{k}: an attenuation is given in a pixel not reported as corrected")
        gone = got[f"corrected_{k}"] & ~has
        if k == "rain":  # no rain path below a pixel whose whole column is cold
            gone &= (~b["freezing"]).any(axis=1)[:, None]
        t.ok(not gone.any(), f"{k}: reported as corrected without an attenuation value")
    t.mark(any(got[k].any() and not got[k].all() for k in Q[4:]))
    for k in Q:
        t.label(k, got[k].any())
    t.label("clutter dropped", lost.any())
    for k in ("liquid", "rain", "melting"):
        t.label(f"uncorrected {k}", att[k]["missing"].any() and "rate" in f)


c.main()
