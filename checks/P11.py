import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
from numpy import ma

import catref
from cloudnetpy.categorize import generate_categorize
from scene import Scene, attenuation_fields, fields_of, scene_case

c = Check(
    "P11",
    "Random multi-instrument scenes are categorized; every attenuation field is compared with one accumulated gate by gate from the model, radiometer and disdrometer inputs and the target bits of the file, the corrected "
    "reflectivity with measured reflectivity plus the reported attenuations, and the error and sensitivity estimates with their documented composition.  Non-trivial: liquid, rain or melting attenuation is given somewhere.",
    ["atmoslib's specific attenuations, vapour pressures and lwc gradient are trusted", "model level heights are constant in time", "X-band and 24 GHz radars are not combined with disdrometers (documented as unsupported)"],
)


@c.sub("attenuation", scene_case(steady=True, busy=True), quick=70, thorough=1200, shards=8)
def _(case, t):
    compare(case, t, 2e-3)


@c.sub("changing", scene_case(busy=True), quick=35, thorough=600, shards=8)
def _(case, t):
    """Model fields that change in time are interpolated between model steps on triangles, so values may differ slightly from bilinear interpolation."""
    compare(case, t, 3e-2)


def compare(case, t, rtol):
    sc = Scene(case)
    g = sc.grid()
    if len(sc.valid) < 2:
        t.label("too few profiles")
        return
    files, out = sc.write(t.dir), t.path("o.nc")
    generate_categorize(files, out, options=sc.options())
    with netCDF4.Dataset(out) as nc:
        f, site = fields_of(sc, g, nc)
        z, ze, zs, zb = (t.var(nc, k)[:] for k in ("Z", "Z_error", "Z_sensitivity", "Z_bias"))
        bits = np.asarray(nc["category_bits"][:])
        b = {k: (bits >> i) & 1 == 1 for i, k in enumerate(catref.BITS)}
        clut = (np.asarray(nc["quality_bits"][:]) >> 2) & 1 == 1
        rain = np.asarray(nc["rain_detected"][:]) == 1
        got = {k: t.var(nc, f"radar_{k}_atten")[:] for k in ("gas", "liquid", "rain", "melting")}
    f, site["freq"] = attenuation_fields(sc, g, f)
    site["range"] = sc.range.astype(float)
    att = catref.attenuation(f, site, b, rain)
    total = g["Z"]
    for k, a in att.items():
        x = got[k]
        t.same(x, a["amount"], f"radar_{k}_atten", rtol=rtol, atol=1e-5)
        t.ok(x.count() == 0 or x.min() >= 0, f"negative {k} attenuation")
        for p in x:
            y = p.compressed()
            t.ok(len(y) < 2 or np.diff(y).min() >= -1e-6 * max(1, y.max()), f"{k} attenuation decreases with height")
        total = total + x.filled(0)
    t.same(z, total, "Z is measured plus attenuations", rtol=1e-5, atol=2e-3)
    e, s = catref.errors(z.astype(float), f, site, att, clut)
    t.same(ze, e, "Z_error", rtol=max(rtol, 1e-2), atol=1e-3)
    t.same(zs, s, "Z_sensitivity", rtol=1e-3, atol=5e-3 if case["steady"] else 0.2)
    t.same(zb, 1, "Z_bias")
    t.mark(any(got[k].count() for k in ("liquid", "rain", "melting")))
    for k in got:
        t.label(k, got[k].count() > 0)
    t.label("clutter", clut.any())
    t.label("attenuation without correction", any(a["missing"].any() for a in att.values()))


c.main()
