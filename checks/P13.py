import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cat import Cat, cat_case, common
from cloudnetpy.products import generate_classification

c = Check(
    "P13",
    "Categorize files with random, blocky or layered category and quality bits, attenuation fields, rain, liquid water path, grids and radar bands are converted to the classification product; every pixel of the six status fields and every cloud "
    "boundary is compared with decision tables written from the documented definitions.  Non-trivial: at least four target classes, or a cloud of more than 20 connected pixels.",
    ["no gate lies exactly at mean sea level", "attenuations within 0.01 dB of a class limit are not generated"],
)


def target(b, clutter):
    if clutter and not b["aerosol"]:
        return 0
    if b["aerosol"] and b["insect"] and not clutter:
        return 10
    if b["insect"] and not clutter:
        return 9
    if b["aerosol"]:
        return 8
    if b["melting"]:
        return 7 if b["droplet"] else 6
    if b["falling"]:
        if b["freezing"]:
            return 5 if b["droplet"] else 4
        return 3 if b["droplet"] else 2
    return 1 if b["droplet"] else 0


def att_state(q):
    att = [q["attenuated_" + k] for k in ("liquid", "rain", "melting")]
    cor = [q["corrected_" + k] for k in ("liquid", "rain", "melting")]
    if not any(att):
        return "none"
    return "corrected" if all(c for a, c in zip(att, cor) if a) else "uncorrected"


def detection(q):
    a = att_state(q)
    if q["molecular"] and not q["radar"]:
        return 9
    if q["clutter"]:
        return 8
    if q["radar"]:
        if a == "uncorrected":
            return 2
        if a == "corrected":
            return 7
        return 3 if q["lidar"] else 5
    if a == "uncorrected":
        return 4
    if a == "corrected":
        return 6
    return 1 if q["lidar"] else 0


def big_objects(mask, limit):
    """Connected (up, down, left, right) regions of more than `limit` pixels."""
    out = np.zeros(mask.shape, bool)
    left = mask.copy()
    while left.any():
        i, j = np.argwhere(left)[0]
        stack, comp = [(i, j)], []
        left[i, j] = False
        while stack:
            i, j = stack.pop()
            comp.append((i, j))
            for a, b in ((i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1)):
                if 0 <= a < mask.shape[0] and 0 <= b < mask.shape[1] and left[a, b]:
                    left[a, b] = False
                    stack.append((a, b))
        if len(comp) > limit:
            for a, b in comp:
                out[a, b] = True
    return out


@c.sub("classification", cat_case(sizes=((2, 3), (3, 12), (6, 40), (6, 40), (20, 30), (20, 30)), modes=("random", "blocks", "blocks", "blocks", "columns")), quick=260, shards=4)
def _(case, t):
    cat = Cat(case)
    n, m = cat.n, cat.m
    src, out = cat.write(t.path("cat.nc")), t.path("o.nc")
    generate_classification(src, out)
    exp = {k: np.zeros((n, m), int) for k in ("target_classification", "detection_status", "signal_source_status", "radar_attenuation_status")}
    total = sum(x.filled(0).astype(float) for x in cat.att.values()) + np.zeros((n, m))
    w = case["freq"] > 90
    for i in range(n):
        heavy = w and ((not ma.getmaskarray(cat.lwp)[i] and cat.lwp[i] > 1) or (case["rain"] in ("rainfall_rate", "both") and not ma.getmaskarray(cat.rate)[i] and cat.rate[i] * 3.6e6 > 3))
        severe_below = False
        for j in range(m):
            b = {k: bool(x[i, j]) for k, x in cat.bits.items()}
            q = {k: bool(x[i, j]) for k, x in cat.q.items()}
            exp["target_classification"][i, j] = target(b, q["clutter"])
            exp["detection_status"][i, j] = detection(q)
            exp["signal_source_status"][i, j] = {(1, 1): 1, (1, 0): 2, (0, 1): 3, (0, 0): 0}[int(q["radar"]), int(q["lidar"])]
            s = 6 if severe_below else 0
            if q["radar"]:
                a = total[i, j]
                s = 5 if att_state(q) == "uncorrected" else 4 if a > 15 or heavy else 3 if a >= 10 else 2 if a > 0 else 1
                severe_below |= s == 4
            exp["radar_attenuation_status"][i, j] = s
    cloud = big_objects(np.isin(exp["target_classification"], (1, 3, 4, 5)), 20)
    none = ~cloud.any(axis=1)
    first, last = cloud.argmax(axis=1), m - 1 - cloud[:, ::-1].argmax(axis=1)
    h = cat.height.astype(float)
    base, top = ma.array(h[first], mask=none), ma.array(h[last], mask=none)
    status = np.array([0 if none[i] else 4 if last[i] == m - 1 else {3: 1, 5: 2, 4: 3}.get(exp["radar_attenuation_status"][i, last[i]], 0) for i in range(n)])
    with netCDF4.Dataset(out) as nc:
        common(t, nc, cat, "classification")
        for k, x in exp.items():
            t.same(t.var(nc, k)[:], x, k)
        t.same(t.var(nc, "cloud_base_height_amsl")[:], base, "cloud_base_height_amsl", rtol=1e-6, atol=1e-3)
        t.same(t.var(nc, "cloud_top_height_amsl")[:], top, "cloud_top_height_amsl", rtol=1e-6, atol=1e-3)
        t.same(t.var(nc, "cloud_base_height_agl")[:], base - cat.alt, "cloud_base_height_agl", rtol=1e-6, atol=1e-3)
        t.same(t.var(nc, "cloud_top_height_agl")[:], top - cat.alt, "cloud_top_height_agl", rtol=1e-6, atol=1e-3)
        t.same(t.var(nc, "cloud_top_height_status")[:], status, "cloud_top_height_status")
        if case["rain"] in ("rain_detected", "both"):
            t.same(t.var(nc, "rain_detected")[:], cat.raindet, "rain_detected")
    t.mark(len(np.unique(exp["target_classification"])) >= 4 or cloud.any())
    t.label("clouds", cloud.any())
    t.label("small objects removed", bool((np.isin(exp["target_classification"], (1, 3, 4, 5)) & ~cloud).any()))
    for k in np.unique(exp["radar_attenuation_status"]):
        t.label(f"attenuation status {k}")
    for k in np.unique(status):
        t.label(f"top status {k}")


@c.sub("table", st.fixed_dictionaries({"seed": st.integers(0, 2**31), "freq": st.sampled_from([35.5, 94.0])}), quick=4)
def _(case, t):
    """All 64 x 1024 combinations of bits in one file."""
    base = {"n": 256, "m": 256, "mode": "random", "qmode": "random", "p": 0.3, "grid": "uniform", "alt": 12.0, "zmask": "echo", "lwp": "ok", "rain": "rain_detected", "prain": 0.0, "rmask": 0.0,
            "att": "zero", "temp": "cold", "mt": 2, "empty": 0, "freq": case["freq"], "seed": case["seed"]}
    cat = Cat(base)
    codes = rng(case["seed"]).permutation(65536).reshape(256, 256)
    for i, k in enumerate(cat.bits):
        cat.bits[k] = (codes >> i) & 1 == 1
    for i, k in enumerate(cat.q):
        cat.q[k] = (codes >> (6 + i)) & 1 == 1
    src, out = cat.write(t.path("cat.nc")), t.path("o.nc")
    generate_classification(src, out)
    names, qnames = list(cat.bits), list(cat.q)
    tt, dd = np.zeros(65536, int), np.zeros(65536, int)
    for v in range(65536):
        q = {k: bool((v >> (6 + i)) & 1) for i, k in enumerate(qnames)}
        tt[v] = target({k: bool((v >> i) & 1) for i, k in enumerate(names)}, q["clutter"])
        dd[v] = detection(q)
    with netCDF4.Dataset(out) as nc:
        t.same(t.var(nc, "target_classification")[:], tt[codes], "target_classification")
        t.same(t.var(nc, "detection_status")[:], dd[codes], "detection_status")
    t.mark()


c.main()
