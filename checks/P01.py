import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy import utils
from cloudnetpy.cloudnetarray import CloudnetArray

c = Check(
    "P01",
    "Cases are sample times placed inside/at the edges of/outside the bins of an even grid with values, masks and "
    "NaNs drawn element by element; the oracle is an element-by-element loop.  Non-trivial: at least one bin "
    "collects two or more valid samples and at least one bin has no valid sample or a partly masked one.",
    ["target grids are evenly spaced, as the binning documents", "2-D data carry masks, not NaNs, as all callers ensure"],
)


@st.composite
def grids(draw):
    n = draw(st.integers(2, 9))
    kind = draw(st.sampled_from(["unit", "dyadic", "day", "hour"]))
    start = draw(st.integers(-3, 20))
    return {"n": n, "kind": kind, "start": start}


def grid_of(g):
    """Returns start, step, exact-edges flag."""
    if g["kind"] == "unit":
        return float(g["start"]), 1.0, True
    if g["kind"] == "dyadic":
        return float(g["start"]), 0.25, True
    if g["kind"] == "hour":
        return float(abs(g["start"]) % 20), 1 / 2.0, True
    return (abs(g["start"]) % 20) * 1.0, 1 / 120, False


FR = [0.0, 0.01, 0.25, 0.5, 0.75, 0.99]
VALS = st.one_of(st.just(0.0), st.integers(-40, 40).map(lambda i: i * 0.25))


@st.composite
def cases(draw, ncol, nan=False):
    g = draw(grids())
    n = draw(st.integers(0 if ncol == 0 else 1, 24))
    allzero = draw(st.integers(0, 9)) == 0
    rows = []
    for _ in range(n):
        b = draw(st.integers(-1, g["n"]))
        fr = draw(st.sampled_from(FR))
        k = max(ncol, 1)
        vals = [0.0] * k if allzero else draw(st.lists(VALS, min_size=k, max_size=k))
        msk = draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=k, max_size=k))
        nn = draw(st.sampled_from([0, 0, 0, 0, 0, 1])) if nan else 0
        rows.append([b, fr, vals, msk, nn])
    return {
        "g": g,
        "rows": rows,
        "stat": draw(st.sampled_from(["mean", "std", "max"])),
        "n_min": draw(st.integers(1, 3)),
        "keepdim": draw(st.booleans()),
        "mask_zeros": draw(st.booleans()),
        "sort": draw(st.booleans()),
        "maskall": draw(st.integers(0, 11)) == 0,
        "plain": draw(st.integers(0, 3)) == 0,
    }


def build(case):
    s, step, exact = grid_of(case["g"])
    n = case["g"]["n"]
    x_new = s + step * (np.arange(n) + 0.5)
    rows = case["rows"]
    if case["sort"]:
        rows = sorted(rows, key=lambda r: (r[0], r[1]))
    x, bins = [], []
    for b, fr, *_ in rows:
        if fr == 0.0 and (not exact or b in (n,)):
            fr = 0.5
        x.append(s + step * (b + fr))
        bins.append(b)
    return x_new, np.array(x, dtype=float), bins, rows


STAT = {
    "mean": lambda v: sum(v) / len(v),
    "max": max,
    "std": lambda v: (sum((a - sum(v) / len(v)) ** 2 for a in v) / len(v)) ** 0.5,
}


@c.sub("rebin_2d", cases(2), quick=1200, shards=2)
def _(case, t):
    x_new, x, bins, rows = build(case)
    n = len(x_new)
    vals = np.array([r[2] for r in rows])
    mask = np.array([r[3] for r in rows], dtype=bool)
    if case["maskall"]:
        mask[:] = True
    plain = case["plain"]
    if plain:
        mask[:] = False
    data = vals.copy() if plain else ma.array(vals.copy(), mask=mask.copy())
    x0 = x.copy()
    got, empty = utils.rebin_2d(
        x, data, x_new, case["stat"], case["n_min"], keepdim=case["keepdim"], mask_zeros=case["mask_zeros"]
    )
    t.ok(np.array_equal(x, x0), "input times modified")
    t.ok(np.array_equal(np.asarray(ma.getdata(data)), vals) and np.array_equal(ma.getmaskarray(data), mask), "input data modified")
    exp = ma.masked_all((n, 2))
    counts = [sum(1 for b in bins if b == k) for k in range(n)]
    two = gap = False
    for k in range(n):
        if counts[k] < case["n_min"]:
            gap = True
            continue
        for j in range(2):
            v = [vals[i, j] for i in range(len(bins)) if bins[i] == k and not mask[i, j]]
            if not v:
                gap = True
                continue
            two = two or len(v) > 1
            s = STAT[case["stat"]](v)
            if case["mask_zeros"] and abs(s) < 1e-12:
                continue
            exp[k, j] = s
    if case["keepdim"]:
        e2 = ma.masked_all(data.shape)
        for i, b in enumerate(bins):
            if 0 <= b < n:
                e2[i] = exp[b]
        exp = e2
    # a statistic that is zero only up to rounding may or may not be masked by mask_zeros
    t.same(got, exp, f"rebin_2d({case['stat']})", rtol=1e-5, atol=1e-6)
    exp_empty = [k for k in range(n) if counts[k] < case["n_min"]]
    t.eq([int(k) for k in empty if k < n], exp_empty, "empty bins")
    t.mark(two and gap, "two-and-gap")
    t.label("outside", any(b in (-1, n) for b in bins))
    t.label("edge", any(r[1] == 0 for r in rows))


@c.sub("rebin_1d", cases(0, nan=True), quick=1200, shards=2)
def _(case, t):
    x_new, x, bins, rows = build(case)
    n = len(x_new)
    vals = np.array([r[2][0] for r in rows], dtype=float)
    mask = np.array([r[3][0] for r in rows], dtype=bool)
    nan = np.array([r[4] for r in rows], dtype=bool)
    if case["maskall"]:
        mask[:] = True
    if case["plain"]:
        mask[:] = False
    raw = vals.copy()
    raw[nan] = np.nan
    data = raw.copy() if case["plain"] else ma.array(raw.copy(), mask=mask.copy())
    got = utils.rebin_1d(x, data, x_new, case["stat"])
    t.ok(np.array_equal(ma.getdata(data), raw, equal_nan=True) and np.array_equal(ma.getmaskarray(data), mask), "input data modified")
    exp = ma.masked_all(n)
    two = gap = False
    for k in range(n):
        v = [vals[i] for i in range(len(bins)) if bins[i] == k and not mask[i] and not nan[i]]
        if not v:
            gap = True
            continue
        two = two or len(v) > 1
        exp[k] = STAT[case["stat"]](v)
    t.same(got, exp, f"rebin_1d({case['stat']})", rtol=1e-6, atol=1e-6)
    t.mark(two and gap, "two-and-gap")
    t.label("novalid", exp.mask.all())
    t.label("allzero", bool((vals == 0).all()))


@c.sub("array_rebin", cases(2), quick=300)
def _(case, t):
    """The array wrapper used by the instrument classes: same binning, reports bins without data."""
    x_new, x, bins, rows = build(case)
    n = len(x_new)
    one = case["keepdim"]
    vals = np.array([r[2] for r in rows])
    mask = np.array([r[3] for r in rows], dtype=bool)
    if one:
        vals, mask = vals[:, :1], mask[:, :1]
    data = ma.array(vals.copy(), mask=mask.copy())
    arr = CloudnetArray(data[:, 0] if one else data, "x")
    bad = sorted(int(b) for b in arr.rebin_data(x, x_new) if b < n)
    exp = ma.masked_all((n, vals.shape[1]))
    for k in range(n):
        for j in range(vals.shape[1]):
            v = [vals[i, j] for i in range(len(bins)) if bins[i] == k and not mask[i, j]]
            if v:
                exp[k, j] = sum(v) / len(v)
    if one:
        exp = exp[:, 0]
        exp_bad = [k for k in range(n) if exp.mask[k]]
    else:
        exp_bad = [k for k in range(n) if not any(b == k for b in bins)]
    t.same(arr.data, exp, "rebin_data", atol=1e-6)
    t.eq(bad, exp_bad, "bins without data")
    t.mark(len(exp_bad) > 0 and len(exp_bad) < n)


@c.sub("grid", st.sampled_from([d for d in range(1, 86401) if 86400 % d == 0] + [7, 11, 25, 50, 77, 1000, 35, 2500]), quick=120)
def _(case, t):
    g = utils.time_grid(case)
    t.same(utils.time_grid(), (np.arange(2880) + 0.5) * 30 / 3600, "default time grid", atol=1e-9)
    n = int(np.ceil(86400 / case))
    t.ok(len(g) in ((n,) if 86400 % case == 0 else (n, n - 1, n + 1)), lambda: f"time_grid({case}) has {len(g)} points, expected {n}")
    exp = (np.arange(len(g)) + 0.5) * case / 3600
    t.same(g, exp, f"time_grid({case})", atol=1e-9)
    if len(g) > 1:
        edges = utils.binvec(g)
        t.same(edges, np.arange(len(g) + 1) * case / 3600, "edges", atol=1e-9)
    t.mark(86400 % case == 0 and len(g) > 1)


@c.sub("grid_bad", st.integers(-100, 0), quick=20)
def _(case, t):
    try:
        utils.time_grid(case)
    except ValueError:
        t.mark()
        return
    t.fail(f"time_grid({case}) accepted")


@c.sub("binvec", st.tuples(st.integers(2, 40), st.integers(-100, 100), st.integers(1, 64), st.booleans()), quick=200)
def _(case, t):
    n, s, d, aslist = case
    d = d / 8
    x = [s + i * d for i in range(n)]
    got = utils.binvec(x if aslist else np.array(x))
    t.same(got, [s + (i - 0.5) * d for i in range(n + 1)], "binvec", atol=1e-9)
    t.mark(n > 2)


c.main()
