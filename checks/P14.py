import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
from numpy import ma

from cat import Cat, cat_case, common
from cloudnetpy.products import generate_ier, generate_iwc

c = Check(
    "P14",
    "Categorize files with all kinds of bits, reflectivities, temperatures and rain are converted to the ice water content and ice effective radius products; every pixel of the value, error, sensitivity and status fields is compared with the "
    "published formulas and the documented status table.  Non-trivial: some pixels are retrieved and some ice pixels are not.",
    ["Z_error is given where Z is given"],
)
# Hogan et al. (2006), Table 2, and Griesche et al. (2020): |K|^2, ZT, T, Z, constant
IWC = {"Ka": (0.878, 0.000242, -0.0186, 0.0699, -1.63), "W": (0.669, 0.000580, -0.00706, 0.0923, -0.992)}
IER = {"Ka": (0.878, -0.000205, -0.0015, 0.0016, -1.52), "W": (0.669, -0.000296, -0.00193, 0.0, -1.502)}
STRAT = cat_case(sizes=((2, 3), (2, 5), (3, 12), (6, 40), (20, 30)), freqs=(33.0, 35.5, 36.9, 94.0, 95.5))


def classes(cat):
    b, q = cat.bits, cat.q
    ice = b["falling"] & b["freezing"] & ~b["melting"] & ~b["insect"]
    unc = np.zeros_like(ice)
    att = np.zeros_like(ice)
    for k in ("liquid", "rain", "melting"):
        att |= q["attenuated_" + k]
        unc |= q["attenuated_" + k] & ~q["corrected_" + k]
    return ice, ice & unc, att


def status(cat):
    b = cat.bits
    ice, unc, att = classes(cat)
    zm = ma.getmaskarray(cat.Z)
    out = np.zeros(ice.shape, int)
    for i, j in np.ndindex(*ice.shape):
        if not ice[i, j] and cat.is_rain[i] and b["freezing"][i, j] and not b["melting"][i, j]:
            s = 6
        elif unc[i, j]:
            s = 2
        elif ice[i, j]:
            s = 4 if zm[i, j] else 3 if att[i, j] else 1
        elif b["melting"][i, j] or (b["falling"][i, j] and not b["freezing"][i, j] and not b["insect"][i, j]):
            s = 7
        else:
            s = 0
        out[i, j] = s
    return out, ice, unc


def formula(co, z, tc):
    z = z + 10 * np.log10(co[0] / 0.93)
    return 10 ** (co[1] * z * tc + co[2] * tc + co[3] * z + co[4])


def labels(t, cat, st_, ok):
    t.mark(ok.any() and not ok.all() and np.any(np.isin(st_, (2, 4))))
    for k in np.unique(st_):
        t.label(f"status {k}")


@c.sub("iwc", STRAT, quick=260, shards=2)
def _(case, t):
    cat = Cat(case)
    out = t.path("o.nc")
    generate_iwc(cat.write(t.path("cat.nc")), out)
    co = IWC["Ka" if case["freq"] < 50 else "W"]
    tc = cat.model("T") - 273.15
    st_, ice, unc = status(cat)
    zm = ma.getmaskarray(cat.Z)
    miss = ~ice | unc | zm
    with netCDF4.Dataset(out) as nc:
        common(t, nc, cat, "iwc")
        t.same(t.var(nc, "iwc")[:], ma.array(formula(co, cat.Z.data.astype(float), tc) * 1e-3, mask=miss), "iwc", rtol=1e-3, atol=0)
        t.same(t.var(nc, "iwc_retrieval_status")[:], st_, "iwc_retrieval_status")
        rnd = cat.Zerr.data.astype(float) * (co[1] * tc + co[3]) * 10
        t.same(t.var(nc, "iwc_error")[:], ma.array(np.sqrt(1.7**2 + rnd**2), mask=miss), "iwc_error", rtol=1e-4)
        t.same(t.var(nc, "iwc_bias")[:], cat.Zbias * co[3] * 10, "iwc_bias")
        t.same(t.var(nc, "iwc_sensitivity")[:], formula(co, cat.Zsens.astype(float), tc.mean(axis=0)) * 1e-3, "iwc_sensitivity", rtol=1e-3, atol=0)
    labels(t, cat, st_, ~miss)


@c.sub("ier", STRAT, quick=260, shards=2)
def _(case, t):
    cat = Cat(case)
    out = t.path("o.nc")
    generate_ier(cat.write(t.path("cat.nc")), out)
    co = IER["Ka" if case["freq"] < 50 else "W"]
    tc = cat.model("T") - 273.15
    st_, ice, unc = status(cat)
    miss = ~ice | unc | ma.getmaskarray(cat.Z)
    val = formula(co, cat.Z.data.astype(float), tc) * 3 / (2 * 917)
    with netCDF4.Dataset(out) as nc:
        common(t, nc, cat, "ier")
        t.same(t.var(nc, "ier")[:], ma.array(val, mask=miss), "ier", rtol=1e-3, atol=0)
        t.same(t.var(nc, "ier_error")[:], ma.array(val * np.sqrt(0.4**2 + 0.4**2), mask=miss), "ier_error", rtol=1e-3, atol=0)
        t.same(t.var(nc, "ier_retrieval_status")[:], st_, "ier_retrieval_status")
    labels(t, cat, st_, ~miss)


c.main()
