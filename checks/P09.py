import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
from numpy import ma

import catref
from cloudnetpy.categorize import generate_categorize
from scene import Scene, fields_of, scene_case

c = Check(
    "P09",
    "Random multi-instrument scenes (rain with melting layers, ice, drizzle, insects, clutter, liquid layers, aerosol, cold lidar echoes, speckle) are categorized; the six target bits and rain_detected are compared pixel by pixel "
    "with an independent reference classification of the gridded fields.  Pixels on which the reference itself changes when its inputs are jittered within rounding are left out.  Non-trivial: at least three of the six bits vary.",
    ["at most 40 profiles per scene (some span 8 hours to reach the four-hour rule)", "fewer than 300 profiles, so the stripe filter stays inactive", "Voodoo (LV0 files) is not exercised: the voodoonet package is not installed"],
)


@c.sub("bits", scene_case(busy=True), quick=110, thorough=1500, shards=8)
def _(case, t):
    sc = Scene(case)
    g = sc.grid()
    if len(sc.valid) < 2:
        t.label("too few profiles")
        return
    files, out = sc.write(t.dir), t.path("o.nc")
    generate_categorize(files, out, options=sc.options())
    with netCDF4.Dataset(out) as nc:
        f, site = fields_of(sc, g, nc)
        bits = np.asarray(t.var(nc, "category_bits")[:])
        got = {k: (bits >> i) & 1 == 1 for i, k in enumerate(catref.BITS)}
        raining = nc["rain_detected"][:]
        p = nc["insect_prob"][:]
    refs = [catref.classify(f, site)]
    r = rng(case["seed"] + 1)
    for _ in range(3):
        refs.append(catref.classify(jitter(f, r), site))
    ref = refs[0]
    sure = {k: np.logical_and.reduce([x[k] == ref[k] for x in refs]) for k in (*catref.BITS, "rain", "clutter")}
    t.ok(not ma.is_masked(raining), "rain_detected has missing values")
    t.same(np.asarray(raining)[sure["rain"]], ref["rain"][sure["rain"]].astype(int), "rain_detected")
    for k in ("melting", "freezing", "droplet", "insect", "falling", "aerosol"):
        bad = (got[k] != ref[k]) & sure[k]
        t.ok(not bad.any(), lambda: f"{k}: {bad.sum()} pixels differ, first at {tuple(int(x) for x in np.argwhere(bad)[0])}: reported {got[k][bad][0]}")
    t.mark(sum(ref[k].any() and not ref[k].all() for k in catref.BITS) >= 3)
    for k in catref.BITS:
        t.label(k, ref[k].any() and not ref[k].all())
    t.label("rain", ref["rain"].any())
    t.label("clutter", ref["clutter"].any())
    t.label("insects near melting layer", "moved" in ref and ref["moved"].any())
    t.label("unsure pixels", not all(x.all() for x in sure.values()))


def jitter(f, r):
    e = {"Z": 5e-4, "v": 1e-4, "v_sigma": 1e-5, "width": 1e-5, "ldr": 1e-4, "sldr": 1e-4, "Tw": 1e-4}
    out = dict(f)
    for k, s in e.items():
        if k in f:
            out[k] = f[k] + r.normal(0, s, f[k].shape)
    return out


c.main()
