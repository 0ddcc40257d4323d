import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cat import Cat, cat_case, common
from cloudnetpy.exceptions import InvalidSourceFileError
from cloudnetpy.products import generate_der
from cloudnetpy.products.der import Parameters

c = Check(
    "P16",
    "Categorize files with single and multiple liquid layers, missing echoes, liquid water paths of all kinds, rain and varying gate lengths are converted to the droplet effective radius product with default and user-given parameters; every "
    "pixel of the five value fields and of the status is compared with Frisch et al. (2002).  Non-trivial: some liquid pixels are retrieved and some are not.",
    ["reflectivity is missing in at least one pixel of the file, as in every real one"],
)
PARAM = st.one_of(st.none(), st.tuples(st.sampled_from([1.0, 2.0]), st.sampled_from([100e6, 200e6, 50e6]), st.sampled_from([100e6, 200e6]), st.sampled_from([0.1, 0.25, 0.35]), st.sampled_from([0.05, 0.1]), st.sampled_from([1e-3, 5e-3, 2e-2])))


@st.composite
def der_case(draw):
    d = draw(cat_case(modes=("random", "blocks", "columns", "columns", "columns"), sizes=((2, 3), (2, 5), (3, 12), (6, 40), (20, 30), (20, 30))))
    d["param"] = draw(PARAM)
    d["has_lwp"] = draw(st.sampled_from([True] * 15 + [False]))
    return d


def layers(column):
    """Runs of True as (first, last)."""
    out, start = [], None
    for j, x in enumerate([*column, False]):
        if x and start is None:
            start = j
        if not x and start is not None:
            out.append((start, j - 1))
            start = None
    return out


@c.sub("der", der_case(), quick=260, shards=4)
def _(case, t):
    cat = Cat(case)
    n, m = cat.n, cat.m
    if case["zmask"] == "none":
        cat.Z[0, 0] = ma.masked
    src, out = cat.write(t.path("cat.nc")), t.path("o.nc")
    if not case["has_lwp"]:
        try:
            generate_der(src, out)
        except InvalidSourceFileError:
            t.ok(not os.path.exists(out), "a file was written without liquid water path")
            return
        t.fail("no exception without liquid water path")
    prm = case["param"]
    if prm is None:
        generate_der(src, out)
        prm = (2.0, 200e6, 200e6, 0.35, 0.1, 5e-3)
    else:
        generate_der(src, out, parameters=Parameters(*prm))
    ddbz, num, dnum, sx, dsx, dq = prm
    dz = np.diff(cat.agl.astype(float), prepend=0)
    z = 10 ** (cat.Z.data.astype(float) / 10)
    ok = cat.bits["droplet"] & ~ma.getmaskarray(cat.Z)
    lwp = np.maximum(cat.lwp.data.astype(float), 0)
    der, err, sc, scerr, nsc = (ma.masked_all((n, m)) for _ in range(5))
    rel = 10 ** (ddbz / 10) / 6
    for i in range(n):
        for a, b in layers(cat.bits["droplet"][i]):
            j = np.arange(a, b + 1)
            j = j[ok[i, j]]
            if not len(j):
                continue
            der[i, j] = 0.5e-3 * (z[i, j] / num) ** (1 / 6) * np.exp(-0.5 * sx**2)
            err[i, j] = der[i, j] * np.sqrt((dnum / (6 * num)) ** 2 + (sx * dsx) ** 2 + rel**2)
            if ma.getmaskarray(cat.lwp)[i] or lwp[i] == 0:
                continue
            column = np.sum(np.sqrt(z[i, j]) * dz[j])
            mm = 1e-3 * z[i, j] ** (1 / 6) / (2 * lwp[i] ** (1 / 3)) * (np.pi * 1000 / 6) ** (1 / 3) * column ** (1 / 3) * np.exp(-2 * sx**2)
            sc[i, j] = mm * 1e-3
            scerr[i, j] = sc[i, j] * np.sqrt(rel**2 + (4 * sx * dsx) ** 2 + (dq / (3 * lwp[i])) ** 2)
            nsc[i, j] = z[i, j] / (2 * mm / np.exp(-0.5 * sx**2)) ** 6
    b = cat.bits
    got = ~ma.getmaskarray(der)
    ice = b["falling"] & b["freezing"] & ~b["melting"] & ~b["droplet"] & ~b["insect"]
    status = np.where(got, np.where(cat.is_rain[:, None], 3, np.where(b["falling"], 2, 1)), np.where(ice, 4, 0))
    with netCDF4.Dataset(out) as nc:
        common(t, nc, cat, "der")
        for k, x in (("der", der), ("der_error", err), ("der_scaled", sc), ("der_scaled_error", scerr), ("N_scaled", nsc)):
            t.same(t.var(nc, k)[:], x, k, rtol=1e-3, atol=0)
        t.same(t.var(nc, "der_retrieval_status")[:], status, "der_retrieval_status")
        if case["param"] is not None:
            t.ok(f"{ddbz} dBZ" in nc["der_error"].comment, "comment of der_error")
    t.mark(got.any() and np.any(b["droplet"] & ~got))
    t.label("several layers", any(len(layers(x)) > 1 for x in b["droplet"]))
    for k in np.unique(status):
        t.label(f"status {k}")


c.main()
