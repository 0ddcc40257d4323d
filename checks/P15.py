import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import atmoslib
import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cat import Cat, cat_case, common
from cloudnetpy.exceptions import InvalidSourceFileError
from cloudnetpy.products import generate_lwc

c = Check(
    "P15",
    "Categorize files with single and multiple liquid layers seen by radar, lidar, both or neither, liquid water paths below and above the adiabatic one, missing and unphysical paths, rain and varying gate lengths are converted to the liquid "
    "water content product; the vertical integral, every pixel of the value, error and status fields are compared with an independent scaled-adiabatic reference.  Non-trivial: a profile with liquid, a path and no rain.",
    ["the adiabatic gradient of a given temperature and pressure is taken from the atmoslib package", "profiles whose adiabatic path comes within 1e-4 of the measured one while the top is raised are not judged",
     "see known-findings.json: rain status 4, added pixels without liquid water content, class 5 unused"],
)


@st.composite
def lwc_case(draw):
    d = draw(cat_case(modes=("random", "blocks", "columns", "columns", "columns"), sizes=((2, 3), (3, 5), (3, 12), (6, 40), (20, 30), (20, 30))))
    d["has_lwp"] = draw(st.sampled_from([True] * 15 + [False]))
    d["lidar_only"] = draw(st.sampled_from([0, 1, 2]))
    d["topcloud"] = draw(st.booleans())
    d["fog"] = draw(st.sampled_from([0, 0, 1]))
    return d


def layers(column):
    out, start = [], None
    for j, x in enumerate([*column, False]):
        if x and start is None:
            start = j
        if not x and start is not None:
            out.append((start, j - 1))
            start = None
    return out


@c.sub("lwc", lwc_case(), quick=260, shards=4)
def _(case, t):
    cat = Cat(case)
    n, m = cat.n, cat.m
    liq = cat.bits["droplet"]
    if case["topcloud"]:
        liq[0, m - 1] = True
    if case["fog"]:
        liq[-1, :2] = True
    if case["lidar_only"]:
        rows = slice(None) if case["lidar_only"] == 2 else slice(0, None, 2)
        cat.q["lidar"][rows] |= liq[rows]
        cat.q["radar"][rows] &= ~liq[rows]
    src, out = cat.write(t.path("cat.nc")), t.path("o.nc")
    if not case["has_lwp"]:
        try:
            generate_lwc(src, out)
        except InvalidSourceFileError:
            t.ok(not os.path.exists(out), "a file was written without liquid water path")
            return
        t.fail("no exception without liquid water path")
    generate_lwc(src, out)
    dz = np.diff(cat.agl.astype(float), prepend=0)
    temp, pres = cat.model("T"), cat.model("P")
    adia = np.zeros((n, m))
    for i in range(n):
        for a, b in layers(liq[i]):
            slope = float(np.atleast_1d(atmoslib.adiabatic_lwc_gradient(np.array([temp[i, a]]), np.array([pres[i, a]])))[0])
            adia[i, a:b + 1] = slope * np.cumsum(dz[a:b + 1])
    path = (adia * dz).sum(axis=1)
    nolwp = ma.getmaskarray(cat.lwp)
    lwp = np.maximum(cat.lwp.data.astype(float), 0)
    lwc = ma.masked_all((n, m))
    status = np.where(liq, 1, 0)
    skip = np.zeros(n, bool)
    for i in range(n):
        if path[i] > 0 and not nolwp[i] and not cat.is_rain[i]:
            lwc[i] = adia[i] * lwp[i] / path[i]
        if cat.is_rain[i] or nolwp[i] or not liq[i].any():
            continue
        a, b = layers(liq[i])[-1]
        radar, lidar = cat.q["radar"][i, a:b + 1], cat.q["lidar"][i, a:b + 1]
        skip[i] |= abs(path[i] - lwp[i]) < 1e-4 * lwp[i]
        if a == 0 or radar.any() or not lidar.any() or path[i] >= lwp[i]:
            skip[i] |= a == 0
            continue
        status[i, liq[i]] = 2
        prof, base = adia[i].copy(), adia[i, a]
        for k, j in enumerate(range(a + 1, m)):
            prof[j] = base * (k + 2)
            if status[i, j] == 0:
                status[i, j] = 3
            s = (prof * dz).sum()
            skip[i] |= abs(s - lwp[i]) < 1e-4 * lwp[i]
            if s > lwp[i]:
                break
        t.label("cloud top raised")
    status[nolwp] = 4
    status[cat.is_rain] = 4
    # error of lwc: uncertainty of the layer boundaries and of the path
    filled = lwc.filled(0)
    grad = [np.gradient(filled, axis=k) for k in (0, 1)]
    with np.errstate(all="ignore"):
        e1 = np.minimum(np.sqrt(grad[0] ** 2 + grad[1] ** 2) / filled / 2, 5)
        e2 = np.minimum(cat.lwperr.data.astype(float) / lwp, 10)[:, None]
        err = ma.array(np.sqrt(e1**2 + e2**2), mask=~(filled > 0))
    with netCDF4.Dataset(out) as nc:
        common(t, nc, cat, "lwc")
        got = t.var(nc, "lwc")[:]
        g = got.filled(0)
        t.ok(not np.any(g < 0), "negative liquid water content")
        t.ok(not ma.getmaskarray(got)[filled > 0].any(), "liquid water content is missing in a liquid pixel of a profile with a path")
        st_ = t.var(nc, "lwc_retrieval_status")[:]
        new = status == 3  # known finding: these pixels carry no liquid water content
        t.same(g[~new], filled[~new], "lwc", rtol=2e-3, atol=1e-12)
        t.ok(np.all((g[new] == 0) | (g[new] > 0)), "lwc in added pixels")
        miss = ma.getmaskarray(got)
        rows = cat.is_rain | nolwp | (path == 0)
        t.ok(miss[rows].all(), "liquid water content given in a profile of rain, without a path or without liquid")
        for i in range(n):
            if path[i] > 0 and not nolwp[i] and not cat.is_rain[i]:
                t.ok(abs((g[i] * dz).sum() - lwp[i]) <= 2e-3 * lwp[i] + 1e-9, lambda: f"integral of lwc is {(g[i] * dz).sum()}, liquid water path {lwp[i]}")
                t.mark(lwp[i] > 0)
        for i in range(n):
            if skip[i]:
                t.label("status not judged")
                continue
            if cat.is_rain[i]:
                # known finding: 4 is written where 6 is documented
                t.ok(np.all(st_[i] == 4) or np.all(st_[i] == 6), lambda: f"status of a rainy profile: {st_[i]}")
                continue
            exp = status[i]
            if nolwp[i]:
                # known finding: class 5 is not used
                t.ok(np.all((st_[i] == 4) | ((st_[i] == 5) & liq[i])), lambda: f"status without liquid water path: {st_[i]}")
                continue
            t.same(st_[i], exp, f"status of profile {i}")
        e = t.var(nc, "lwc_error")[:]
        ok = ~new
        t.same(ma.array(e, mask=ma.getmaskarray(e) | new)[ok], err[ok], "lwc_error", rtol=5e-3, atol=1e-6)
        t.ok(np.all(e.compressed() > 0), "error that is not positive")
        t.same(t.var(nc, "lwp")[:], cat.lwp, "lwp")
    t.label("several layers", any(len(layers(x)) > 1 for x in liq))
    for k in np.unique(st_):
        t.label(f"status {k}")


c.main()
