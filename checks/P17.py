import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import mie
import netCDF4
from hypothesis import strategies as st
from math import gamma
from numpy import ma

from cat import Cat, cat_case, common
from cloudnetpy.products import generate_drizzle

c = Check(
    "P17",
    "Categorize files with drizzle, warm liquid, melting, insects, clutter, attenuation and rain, all kinds of reflectivity, backscatter, spectral width and wind, and a generated drop-size table are converted to the drizzle product; "
    "every pixel of all retrieved and derived fields, their errors and the status is compared with an independent retrieval written from O'Connor et al. (2005).  Non-trivial: at least five drizzle pixels.",
    ["the repository does not contain the drop-size table, so a generated one with the same layout is used", "pixels within rounding distance of a table or convergence boundary, and those above them, are not compared"],
)


@st.composite
def drizzle_case(draw):
    d = draw(cat_case(modes=("random", "blocks", "columns"), sizes=((2, 5), (3, 12), (6, 40), (10, 30))))
    d["temp"] = "warm"
    d["freq"] = draw(st.sampled_from([35.5, 94.0]))
    d["quiet"] = draw(st.sampled_from([True, True, True, False]))
    d["prain"] = draw(st.sampled_from([0.0, 0.0, 0.3]))
    d["sigma"] = draw(st.sampled_from(["full", "full", "masked", "nan"]))
    d["width"] = draw(st.sampled_from(["yes", "yes", "yes", "no"]))
    d["wind"] = draw(st.sampled_from([1.0, 1.0, 0.1]))
    d["zrange"] = draw(st.sampled_from(["all", "typical", "typical", "tiny"]))
    d["beta_error"] = draw(st.sampled_from([0.5, 1.5]))
    return d


def diameter(ratio, mu=0.0, ray=1.0, k=1.0):
    return (gamma(3 + mu) / gamma(7 + mu) * (3.67 + mu) ** 4 / (ray * k * ratio)) ** 0.25


def first_at_least(table, x):
    """Index of the first entry that is not below x (the last one if none), and whether rounding decides."""
    i = min(int(np.sum(table < x)), len(table) - 1)
    near = bool(np.any(np.abs(table - x) < 2e-5 * np.maximum(np.abs(table), np.abs(x)) + 2e-6 * np.abs(table).max() * (np.abs(table).max() > 0.01)))
    return i, near


def lin(x):
    return np.exp(np.minimum(x, 100) * np.log(10) / 10) - 1


def db(x):
    return 10 * np.log10(np.maximum(x, -0.9) + 1)


@c.sub("drizzle", drizzle_case(), quick=150, thorough=3500, shards=4)
def _(case, t):
    cat = Cat(case)
    n, m = cat.n, cat.m
    r = rng(case["seed"] + 2)
    if case["quiet"]:
        for k in ("droplet", "freezing", "melting", "insect"):
            cat.bits[k] &= r.random((n, m)) < 0.2
        for k in ("clutter", "molecular", "attenuated_liquid", "attenuated_rain"):
            cat.q[k] &= r.random((n, m)) < 0.2
        cat.bits["falling"] |= r.random((n, m)) < r.choice([0.2, 0.9])
        cat.q["lidar"] = cat.bits["droplet"] | cat.bits["aerosol"] | cat.bits["falling"]
        cat.q["radar"] = cat.bits["droplet"] | cat.bits["falling"]
    lo, hi = {"all": (-55, 25), "typical": (-40, 0), "tiny": (-58, -45)}[case["zrange"]]
    cat.Z = ma.array(r.uniform(lo, hi, (n, m)).round(3).astype("f4"), mask=~cat.q["radar"])
    lo, hi = {"all": (-8, -4), "typical": (-7, -4.5), "tiny": (-4.5, -3.8)}[case["zrange"]]
    cat.beta = ma.array((10 ** r.uniform(lo, hi, (n, m))).astype("f4"), mask=~cat.q["lidar"])
    for k in ("Zerr", "v", "width", "vsigma"):
        setattr(cat, k, ma.array(getattr(cat, k).data, mask=~cat.q["radar"]))
    cat.v[:] = np.where(r.random((n, m)) < 0.5, -np.round(cat.v.data % 2 * 16) / 16, cat.v.data)  # air at rest is possible
    no_sigma = np.zeros((n, m), bool)
    if case["sigma"] != "full":
        no_sigma = r.random((n, m)) < 0.2
        if case["sigma"] == "masked":
            cat.vsigma[no_sigma] = ma.masked
        else:
            cat.vsigma.data[no_sigma] = np.nan
    width = cat.width.data.astype(float)
    if case["width"] == "no":
        cat.width, width = None, np.zeros((n, m))
    cat.u *= np.float32(case["wind"])
    cat.w *= np.float32(case["wind"])
    src, out = cat.write(t.path("cat.nc")), t.path("o.nc")
    generate_drizzle(src, out)
    # classification
    b, q = cat.bits, cat.q
    dry = ~cat.is_rain[:, None]
    base = dry & b["falling"] & ~b["melting"] & ~b["insect"] & q["radar"] & ~q["clutter"] & ~q["molecular"]
    warm = b["droplet"] & ~b["freezing"]
    drizzle = base & ~b["droplet"] & ~b["freezing"] & q["lidar"] & ~q["attenuated_liquid"] & ~q["attenuated_rain"] & ~no_sigma
    would = base & warm
    status = drizzle.astype(int)
    status[drizzle & np.any(b["melting"], axis=1)[:, None]] = 2
    status[(status == 0) & warm] = 4
    status[would] = 3
    status[cat.is_rain] = 5
    # retrieval
    agl = cat.agl.astype(float)
    dz = np.diff(agl, prepend=0)
    wind = np.hypot(cat.model("u"), cat.model("w"))
    beam = agl * np.deg2rad(0.5)
    small = (wind + beam) ** (2 / 3)
    width = -(width - small / ((30 * wind + beam) ** (2 / 3) - small) * cat.vsigma.data.astype(float))
    band = "35" if case["freq"] < 50 else "94"
    tab = mie.TABLE
    z = 10 ** ((np.minimum(cat.Z.data.astype(float), 180) - 180) / 10)
    beta = cat.beta.data.astype(float)
    res = {k: np.zeros((n, m)) for k in ("Do", "mu", "S", "drizzle_N", "drizzle_lwc", "drizzle_lwf", "v_drizzle", "v_air")}
    corr = np.ones((n, m))
    doubt = np.zeros((n, m), bool)
    for i in range(n):
        factor = 1.0
        for j in range(m):
            corr[i, j] = factor
            if not drizzle[i, j]:
                continue
            ratio = 2 / np.pi * beta[i, j] / z[i, j]
            guess = diameter(ratio, k=18.8)
            for _ in range(10):
                jd, near1 = first_at_least(tab["lu_medianD"], guess)
                jw, near2 = first_at_least(-tab[f"lu_width_{band}"][:, jd], width[i, j])
                mu, s = tab["lu_u"][jw], tab["lu_k"][jw, jd]
                d = diameter(ratio * factor, mu, tab[f"lu_mie_ray_{band}"][jw, jd], s)
                change = abs(d - guess) / guess
                if near1 or near2 or abs(change - 1e-3) < 1e-5:
                    doubt[i, j:] = True
                if change < 1e-3:
                    break
                guess = d
            jd, near1 = first_at_least(tab["lu_medianD"], d)
            if near1:
                doubt[i, j:] = True
            jw = int(np.argmin(np.abs(tab["lu_u"] - mu)))
            lwc = 1000 / 3 * s * beta[i, j] * d * gamma(4 + mu) / gamma(3 + mu) / (3.67 + mu)
            fall = tab[f"lu_v_{band}"][jw, jd]
            new = {"Do": d, "mu": mu, "S": s, "drizzle_N": z[i, j] * (3.67 / d) ** 6, "drizzle_lwc": lwc, "drizzle_lwf": lwc * tab["lu_LWF"][jw, jd] * tab["lu_termv"][jd],
                   "v_drizzle": -fall, "v_air": float(cat.v.data[i, j]) + fall}
            for k, x in new.items():
                res[k][i, j] = x
            factor *= np.exp(2 * s * beta[i, j] * dz[j])
    # errors
    ze, be = lin(cat.Zerr.data.astype(float)), lin(np.float64(case["beta_error"]))
    zb, bb = lin(float(cat.Zbias)), lin(0.5)
    d = res["Do"]
    smallish, tiny = (d <= 1e-4) & (d > 1e-5), d <= 1e-5

    def err(scale, wz, wb, extra=0.0):
        return np.sqrt((scale * np.hypot(wz * ze, wb * be)) ** 2 + extra**2)

    dia_error = np.where(smallish, err(1 / 4, 1, 1, 0.25), err(2 / 7, 1, 1, 0.07))
    errors = {
        "Do_error": dia_error,
        "drizzle_lwc_error": np.where(smallish, err(1 / 4, 1, 3), err(1 / 7, 1, 6)),
        "drizzle_lwf_error": np.where(tiny, err(1 / 4, 3, 1, 0.25), np.where(smallish, err(1 / 2, 1, 1, 0.25), err(1 / 7, 3, 4, 0.07))),
        "S_error": err(1 / 2, 1, 1),
        "drizzle_N_error": np.hypot(ze, 6 * lin(dia_error)),
        "v_drizzle_error": np.where(tiny, dia_error**2, dia_error),
    }
    dia_bias = 2 / 7 * np.hypot(zb, bb)
    biases = {"Do_bias": dia_bias, "drizzle_lwc_bias": 1 / 7 * np.hypot(zb, 6 * bb), "drizzle_lwf_bias": 1 / 7 * np.hypot(3 * zb, 4 * bb),
              "drizzle_N_bias": np.hypot(zb, 6 * lin(dia_bias)), "v_drizzle_bias": dia_bias, "mu_error": 0.07}
    edge = doubt | (np.abs(d - 1e-4) < 1e-8) | (np.abs(d - 1e-5) < 1e-9)
    with netCDF4.Dataset(out) as nc:
        common(t, nc, cat, "drizzle")
        got = t.var(nc, "drizzle_retrieval_status")[:]
        t.ok(not ma.is_masked(got), "drizzle_retrieval_status is masked")
        t.same(got, status, "drizzle_retrieval_status")
        for k, x in res.items():
            g = t.var(nc, k)[:]
            t.same(~ma.getmaskarray(g), drizzle, f"pixels with {k}")
            t.same(ma.array(g, mask=~drizzle | doubt), ma.array(x, mask=~drizzle | doubt), k, rtol=2e-4, atol=0)
        hide = doubt | cat.is_rain[:, None]
        g = t.var(nc, "beta_corr")[:]
        t.same(ma.array(g, mask=ma.getmaskarray(g) & ~hide | hide), ma.array(corr, mask=hide), "beta_corr", rtol=1e-4)
        for k, x in errors.items():
            g = t.var(nc, k)[:]
            t.same(~ma.getmaskarray(g), drizzle, f"pixels with {k}")
            t.same(ma.array(g, mask=~drizzle | edge), ma.array(db(x), mask=~drizzle | edge), k, rtol=1e-3, atol=0)
        for k, x in biases.items():
            g = t.var(nc, k)[:]
            t.same(g, np.full(g.shape, db(x)), k, rtol=1e-3)
    t.mark(drizzle.sum() >= 5 and not doubt.all())
    t.label("some pixels not compared", doubt.any())
    t.label("air at rest", np.any(drizzle & (res["v_air"] == 0)))
    t.label("tiny", np.any(tiny & drizzle))
    t.label("small", np.any(smallish & drizzle))
    t.label("attenuation corrected", np.any(drizzle & (corr > 1.01)))
    t.label("zero shape parameter", np.any(drizzle & (res["mu"] == 0)))
    for k in np.unique(status):
        t.label(f"status {k}")


c.main()
