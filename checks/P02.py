import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy import utils

c = Check(
    "P02",
    "Cases are ascending grids (even and uneven spacing), values and masks drawn element by element, and target points on nodes, "
    "between nodes, at midpoints and outside the range; the oracle is a brute-force search / analytic (bi)linear function.  "
    "Non-trivial: some target point is masked or outside and some other is valid and off-node.",
    ["for 2-D masked interpolation the corner samples are valid, so the valid hull is the whole range", "a single sample is a constant"],
)


@st.composite
def axis(draw, lo=2, hi=7, mx=10_000):
    n = draw(st.integers(lo, hi))
    even = draw(st.booleans())
    s = draw(st.integers(0, 8)) / 4
    if even:
        d = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0]))
        return [s + d * i for i in range(n)]
    v = [s]
    for _ in range(n - 1):
        v.append(v[-1] + draw(st.integers(1, 12)) / 8)
    return v


@st.composite
def targets(draw, ax, lo=2, hi=8, outside=True):
    """Points on nodes, at fractions of cells, or outside the range; ascending and distinct."""
    out = set()
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.integers(-1 if outside else 0, len(ax) - 1))
        f = draw(st.sampled_from([0.0, 0.125, 0.25, 0.4375, 0.5, 0.5625, 0.75, 0.875]))
        if k == -1:
            out.add(ax[0] - 0.25 - f)
        elif k == len(ax) - 1:
            out.add(ax[-1] + (f if outside else 0))
        else:
            out.add(ax[k] + f * (ax[k + 1] - ax[k]))
    while len(out) < lo:
        out.add(max(out) + (0.375 if outside else -0.0078125))
    return sorted(out)


VALS = st.integers(-40, 40).map(lambda i: i * 0.5)


@st.composite
def grid2d(draw, outside=True, lo=2):
    x, y = draw(axis(lo)), draw(axis(lo))
    z = draw(st.lists(st.lists(VALS, min_size=len(y), max_size=len(y)), min_size=len(x), max_size=len(x)))
    p = draw(st.sampled_from([[0], [0, 0, 0, 1], [0, 1]]))
    m = draw(st.lists(st.lists(st.sampled_from(p), min_size=len(y), max_size=len(y)), min_size=len(x), max_size=len(x)))
    return {"x": x, "y": y, "z": z, "m": m, "xn": draw(targets(x, outside=outside)), "yn": draw(targets(y, outside=outside)),
            "plane": draw(st.booleans()), "nan": draw(st.booleans()), "swap": draw(st.booleans())}


def cell(ax, v):
    """Index and fraction of v in the ascending axis (clamped)."""
    if v <= ax[0]:
        return 0, 0.0
    if v >= ax[-1]:
        return len(ax) - 2, 1.0
    k = max(i for i in range(len(ax) - 1) if ax[i] <= v)
    return k, (v - ax[k]) / (ax[k + 1] - ax[k])


def bilin(x, y, z, a, b):
    i, f = cell(x, a)
    j, g = cell(y, b)
    return ((1 - f) * (1 - g) * z[i][j] + f * (1 - g) * z[i + 1][j] + (1 - f) * g * z[i][j + 1] + f * g * z[i + 1][j + 1])


@c.sub("linear_2d", grid2d(), quick=500)
def _(case, t):
    x, y, z = case["x"], case["y"], case["z"]
    got = utils.interpolate_2d(np.array(x), np.array(y), np.array(z), np.array(case["xn"]), np.array(case["yn"]))
    exp = np.array([[bilin(x, y, z, a, b) for b in case["yn"]] for a in case["xn"]])
    t.same(got, exp, "interpolate_2d", rtol=1e-9, atol=1e-9)
    t.mark(any(a not in x for a in case["xn"]) and any(b not in y for b in case["yn"]))


@c.sub("linear_2d_mask", grid2d(lo=3), quick=700, shards=2)
def _(case, t):
    x, y = case["x"], case["y"]
    z = np.array(case["z"])
    if case["plane"]:
        z = 1.5 + 2.0 * np.array(x)[:, None] - 0.75 * np.array(y)[None, :]
    m = np.array(case["m"], dtype=bool)
    for i in (0, -1):
        for j in (0, -1):
            m[i, j] = False
    zz = z.copy()
    if case["nan"]:
        zz[m] = np.nan
        data = ma.array(zz, mask=False)
    else:
        zz[m] = 1e6
        data = ma.array(zz, mask=m.copy())
    keep = zz.copy()
    keepm = ma.getmaskarray(data).copy()
    got = utils.interpolate_2d_mask(np.array(x), np.array(y), data, np.array(case["xn"]), np.array(case["yn"]))
    t.ok(np.array_equal(ma.getdata(data), keep, equal_nan=True) and np.array_equal(ma.getmaskarray(data), keepm), "input modified")
    t.eq(got.shape, (len(case["xn"]), len(case["yn"])), "shape")
    gm = ma.getmaskarray(got)
    valid = z[~m]
    masked_out = valid_off = False
    for p, a in enumerate(case["xn"]):
        for q, b in enumerate(case["yn"]):
            inside = x[0] <= a <= x[-1] and y[0] <= b <= y[-1]
            if not inside:
                t.ok(gm[p, q], f"point ({a},{b}) outside the input range is not masked")
                masked_out = True
                continue
            w = bilin(x, y, m.astype(float), a, b)
            if abs(w - 0.5) > 1e-6:
                t.eq(bool(gm[p, q]), bool(w > 0.5), f"mask at ({a},{b}) with missing share {w}")
            masked_out |= w > 0.5
            if gm[p, q]:
                continue
            v = float(got[p, q])
            t.ok(valid.min() - 1e-6 <= v <= valid.max() + 1e-6, f"value {v} at ({a},{b}) outside the range of valid inputs")
            if case["plane"]:
                t.same(v, 1.5 + 2.0 * a - 0.75 * b, f"plane at ({a},{b})", rtol=1e-6, atol=1e-6)
            i, f = cell(x, a)
            j, g = cell(y, b)
            nodes = m[i : i + 2, j : j + 2]
            if a in x and b in y and not m[x.index(a), y.index(b)]:
                t.same(v, z[x.index(a), y.index(b)], f"node ({a},{b})", rtol=1e-6, atol=1e-6)
            elif not nodes.any():
                valid_off = True
                lo, hi = z[i : i + 2, j : j + 2].min(), z[i : i + 2, j : j + 2].max()
                if not m.any():
                    t.ok(lo - 1e-6 <= v <= hi + 1e-6, f"value {v} at ({a},{b}) outside its cell's range {lo}..{hi}")
                    if f == 0 or g == 0 or f == 1 or g == 1:
                        t.same(v, bilin(x, y, z, a, b), f"cell edge ({a},{b})", rtol=1e-6, atol=1e-6)
    t.mark(masked_out and valid_off, "masked-and-offnode")
    t.label("mask", m.any())


@c.sub("linear_2d_extrapolate", grid2d(lo=3), quick=250)
def _(case, t):
    """Planes are extended linearly along the second axis when asked to extrapolate."""
    x, y = case["x"], case["y"]
    z = 1.5 + 2.0 * np.array(x)[:, None] - 0.75 * np.array(y)[None, :]
    xn = [a for a in case["xn"] if x[0] <= a <= x[-1]]
    if len(xn) < 1 or sum(y[0] <= b <= y[-1] for b in case["yn"]) < 2:
        return
    got = utils.interpolate_2d_mask(np.array(x), np.array(y), ma.array(z), np.array(xn), np.array(case["yn"]), extrapolate=True)
    exp = 1.5 + 2.0 * np.array(xn)[:, None] - 0.75 * np.array(case["yn"])[None, :]
    t.same(got, exp, "extrapolated plane", rtol=1e-6, atol=1e-6)
    t.mark(any(not (y[0] <= b <= y[-1]) for b in case["yn"]))


@c.sub("nearest_2d", grid2d(), quick=700, shards=2)
def _(case, t):
    x, y = case["x"], case["y"]
    z = np.array(case["z"])
    m = np.array(case["m"], dtype=bool)
    data = ma.array(z.copy(), mask=m.copy())
    got = utils.interpolate_2d_nearest(np.array(x), np.array(y), data, np.array(case["xn"]), np.array(case["yn"]))
    t.ok(np.array_equal(data.data, z) and np.array_equal(ma.getmaskarray(data), m), "input modified")
    t.eq(got.shape, (len(case["xn"]), len(case["yn"])), "shape")
    gm = ma.getmaskarray(got)
    some = out = False

    def near(ax, v):
        d = [abs(e - v) for e in ax]
        return [i for i, e in enumerate(d) if e <= min(d) + 1e-12]

    for p, a in enumerate(case["xn"]):
        for q, b in enumerate(case["yn"]):
            if not (x[0] <= a <= x[-1] and y[0] <= b <= y[-1]):
                t.ok(gm[p, q], f"({a},{b}) is outside the range but not masked")
                out = True
                continue
            cand = [(None if m[i, j] else z[i, j]) for i in near(x, a) for j in near(y, b)]
            v = None if gm[p, q] else float(got[p, q])
            t.ok(v in cand, f"nearest at ({a},{b}): got {v}, candidates {cand}")
            some |= v is not None and a not in x
    t.mark(some and (out or m.any()))


@c.sub("nearest_y", grid2d(), quick=700, shards=2)
def _(case, t):
    y = case["y"]
    z = np.array(case["z"])
    m = np.array(case["m"], dtype=bool)
    yn = list(reversed(case["yn"])) if case["swap"] else case["yn"]
    data = ma.array(z.copy(), mask=m.copy()) if m.any() or case["nan"] else z.copy()
    got = utils.interpolate_2D_along_y(np.array(y), data, np.array(yn))
    t.ok(np.array_equal(ma.getdata(data), z) and np.array_equal(ma.getmaskarray(data), m), "input modified")
    t.eq(got.shape, (len(case["x"]), len(yn)), "shape")
    gm = ma.getmaskarray(got)
    some = out = False
    for q, b in enumerate(yn):
        if b < y[0] or b > y[-1]:
            t.ok(gm[:, q].all(), f"y={b} is outside the range but not masked")
            out = True
            continue
        d = [abs(e - b) for e in y]
        near = [i for i, e in enumerate(d) if e <= min(d) + 1e-12]
        ok = any(
            np.array_equal(gm[:, q], m[:, i]) and np.array_equal(got.data[:, q][~m[:, i]], z[:, i][~m[:, i]]) for i in near
        )
        t.ok(ok, f"column for y={b} is not that of a nearest level {[y[i] for i in near]}")
        some |= b not in y
    t.mark(some and (out or m.any()))


@st.composite
def series(draw):
    n = draw(st.integers(1, 9))
    tt = sorted(draw(st.lists(st.integers(0, 24 * 60), min_size=n, max_size=n, unique=True)))
    if draw(st.booleans()):  # clustered
        s = draw(st.integers(0, 23 * 60))
        tt = sorted({s + i * draw(st.integers(1, 4)) for i in range(n)})
    n = len(tt)
    v = draw(st.lists(VALS, min_size=n, max_size=n))
    m = draw(st.lists(st.sampled_from([0, 0, 1]), min_size=n, max_size=n))
    gap = draw(st.sampled_from([1, 2, 3, 5, 30, 120, 2000]))
    new = set()
    for _ in range(draw(st.integers(1, 10))):
        if draw(st.booleans()):
            k = draw(st.sampled_from(tt))
            new.add(min(max(k * 60 + draw(st.integers(-gap * 60 - 40, gap * 60 + 40)), 0), 86400))
        else:
            new.add(draw(st.integers(0, 86400)))
    new |= set(draw(st.lists(st.sampled_from([60 * k for k in tt]), max_size=3)))
    return {"t": tt, "v": v, "m": m, "gap": gap, "new": sorted(new), "method": draw(st.sampled_from(["linear", "nearest"])),
            "plain": draw(st.booleans()), "dup": draw(st.sampled_from([0, 0, 1, 2]))}


@c.sub("linear_1d", series(), quick=1000, shards=2)
def _(case, t):
    tt = np.array(case["t"]) / 60.0
    v = np.array(case["v"])
    m = np.array(case["m"], dtype=bool)
    if case["plain"]:
        m[:] = False
    if case["dup"] and len(tt) > 1:  # repeated time step: the first valid one counts
        k = sum(map(ord, repr(case["new"]))) % len(tt)
        tt = np.insert(tt, k + 1, tt[k]); v = np.insert(v, k + 1, v[k] + 7); m = np.insert(m, k + 1, m[k] if case["dup"] == 1 or case["plain"] else not m[k])
    data = ma.array(v.copy(), mask=m.copy())
    new = np.array(case["new"]) / 3600.0
    t0 = tt.copy()
    got = utils.interpolate_1d(tt, data, new, case["gap"], method=case["method"])
    t.ok(np.array_equal(data.data, v) and np.array_equal(ma.getmaskarray(data), m) and np.array_equal(tt, t0), "input modified")
    t.eq(got.shape, new.shape, "shape")
    gm = ma.getmaskarray(got)
    ts, vs = [], []
    for a, b, k in zip(tt, v, m):
        if not k and a not in ts:
            ts.append(a); vs.append(b)
    some = masked = False
    for q, a in enumerate(new):
        if not ts:
            t.ok(gm[q], "no valid samples but output is not masked")
            continue
        d = [abs(a - e) for e in ts]
        if abs(min(d) - case["gap"] / 60) > 1e-9:
            t.eq(bool(gm[q]), min(d) > case["gap"] / 60, f"mask at {a} h, nearest valid sample {min(d) * 60:.3f} min away, limit {case['gap']} min")
        if gm[q]:
            masked = True
            continue
        g = float(got[q])
        if a <= ts[0]:
            e = [vs[0]]
        elif a >= ts[-1]:
            e = [vs[-1]]
        elif case["method"] == "nearest":
            e = [vs[i] for i, x in enumerate(d) if x <= min(d) + 1e-9]
        else:
            e = [float(np.interp(a, ts, vs))]
            some |= a not in ts
        t.ok(any(abs(g - x) <= 1e-6 for x in e), f"{case['method']} value at {a} h: got {g}, expected {e}")
    t.mark(some and masked, "interpolated-and-masked")
    t.label("allmasked", bool(m.all()))


@c.sub("time_range", st.tuples(st.sampled_from([-1.0, -0.001, 24.001, 30.0]), st.booleans()), quick=8)
def _(case, t):
    tt = [case[0], 12.0] if case[0] < 0 else [12.0, case[0]]
    try:
        utils.interpolate_1d(np.array(tt), ma.array([1.0, 2.0]), np.array([12.0]), 10)
    except ValueError:
        t.mark()
        return
    t.fail("time outside 0-24 h accepted")


@c.sub("gaps", series(), quick=400)
def _(case, t):
    ts = [a for a, k in zip(case["t"], case["m"]) if not k]
    new = [a / 60 for a in case["new"]]
    got = [int(i) for i in utils.get_gap_ind(np.array(ts, dtype=float), np.array(new), case["gap"])]
    exp = [i for i, a in enumerate(new) if not ts or min(abs(a - e) for e in ts) > case["gap"] + 1e-9]
    ties = [i for i, a in enumerate(new) if ts and abs(min(abs(a - e) for e in ts) - case["gap"]) <= 1e-9]
    t.eq([i for i in got if i not in ties], [i for i in exp if i not in ties], "gap indices")
    t.mark(0 < len(exp) < len(new))


c.main()
