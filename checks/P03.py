import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime
import math

from hypothesis import strategies as st
from numpy import ma

from cloudnetpy import utils
from cloudnetpy.exceptions import ValidTimeStampError

c = Check(
    "P03",
    "Cases are arrays drawn element by element (runs, masks, zeros, signs), dates and timestamp lists with duplicates, other days and "
    "disorder; the oracle is a plain Python loop or integer arithmetic.  Non-trivial: the array exercises the helper (a run, a mask, a "
    "component above and below the size limit, a duplicate or other-day timestamp).",
    ["arrays of non-negative run indicators for the resetting sum", "time epochs between 1901 and 2023"],
)
UTC = datetime.timezone.utc
VAL = st.integers(-400, 400).map(lambda i: i / 8)


@c.sub("bits", st.tuples(st.lists(st.integers(0, 2**20), min_size=1, max_size=8), st.integers(0, 20), st.sampled_from(["i4", "i8"]), st.booleans()), quick=400)
def _(case, t):
    vals, n, dt, scalar = case
    a = np.array(vals, dtype=dt)
    got = utils.isbit(a, n)
    t.ok(np.array_equal(a, vals), "isbit modified its input")
    t.eq([bool(x) for x in got], [(v >> n) & 1 == 1 for v in vals], f"isbit({vals},{n})")
    got = utils.setbit(a.copy(), n)
    t.eq([int(x) for x in got], [v | (1 << n) for v in vals], f"setbit({vals},{n})")
    t.ok(utils.isbit(got, n).all(), "a set bit is not reported as set")
    for k in range(21):
        if k != n:
            t.ok(np.array_equal(utils.isbit(got, k), utils.isbit(a, k)), "setbit changed another bit")
    t.eq(int(utils.setbit(vals[0], n)), vals[0] | (1 << n), "setbit scalar")
    t.eq(bool(utils.isbit(vals[0], n)), bool(vals[0] >> n & 1), "isbit scalar")
    t.mark(len(set((v >> n) & 1 for v in vals)) == 2)


@c.sub("bits_negative", st.integers(-30, -1), quick=20)
def _(case, t):
    for f in (utils.isbit, utils.setbit):
        try:
            f(np.array([1]), case)
        except ValueError:
            continue
        t.fail("negative bit number accepted")
    t.mark()


@c.sub("db", st.tuples(st.lists(st.tuples(VAL, st.booleans()), min_size=1, max_size=10), st.sampled_from([10, 20]), st.booleans(), st.sampled_from(["f4", "f8"])), quick=300)
def _(case, t):
    rows, scale, plain, dt = case
    v = np.array([r[0] for r in rows], dtype=dt)
    m = np.array([r[1] for r in rows])
    a = v.copy() if plain else ma.array(v.copy(), mask=m.copy())
    lin = utils.db2lin(a, scale)
    exp = [10.0 ** (float(x) / scale) for x in v]
    t.same(lin, exp if plain else ma.array(exp, mask=m), "db2lin", rtol=1e-4)
    back = utils.lin2db(lin, scale)
    t.same(back, v if plain else ma.array(v, mask=m), "lin2db(db2lin)", rtol=1e-4, atol=1e-3)
    t.ok(np.array_equal(ma.getdata(a), v) and (plain or np.array_equal(ma.getmaskarray(a), m)), "input modified")
    if scale == 10:
        t.same(utils.db2lin(a), lin, "default scale")
        t.same(utils.lin2db(lin), back, "default scale")
    # non-positive linear values have no dB value
    x = ma.array([1.0, 0.0, 10.0, 5.0], mask=[0, 0, 0, 1])
    y = utils.lin2db(x)
    t.same(y, ma.array([0, 0, 10, 0], mask=[0, 1, 0, 1]), "lin2db of zero")
    t.mark(m.any() and not m.all() and not plain)


@c.sub("cumsumr", st.tuples(st.integers(1, 12), st.integers(0, 4), st.just(0), st.lists(st.sampled_from([0, 0, 1, 1, 1, 2, 7]), min_size=60, max_size=60), st.integers(0, 1)), quick=400)
def _(case, t):
    n, m, _, vals, axis = case
    if m == 0:
        a = np.array(vals[:n])
        axis = 0
        b = a[:, None]
    else:
        a = np.array(vals[: n * m]).reshape(n, m)
        b = a if axis == 0 else a.T
    a0 = a.copy()
    got = utils.cumsumr(a, axis=axis)
    t.ok(np.array_equal(a, a0), "input modified")
    exp = np.zeros(b.shape)
    for j in range(b.shape[1]):
        s = 0
        for i in range(b.shape[0]):
            s = 0 if b[i, j] == 0 else s + b[i, j]
            exp[i, j] = s
    exp = exp[:, 0] if m == 0 else (exp if axis == 0 else exp.T)
    t.same(got, exp, f"cumsumr({a.tolist()}, axis={axis})")
    if axis == 0:
        t.same(utils.cumsumr(a), exp, "default axis")
    t.mark((a == 0).any() and (a != 0).sum() > 1)


@c.sub("ffill", st.tuples(st.integers(1, 12), st.integers(0, 4), st.lists(st.sampled_from([0, 0, 1, 5, -2]), min_size=60, max_size=60), st.sampled_from([0, 0, 5, -2])), quick=400)
def _(case, t):
    n, m, vals, fill = case
    a = np.array(vals[:n]) if m == 0 else np.array(vals[: n * m]).reshape(m, n)
    a0 = a.copy()
    got = utils.ffill(a, fill) if fill else utils.ffill(a)
    t.ok(np.array_equal(a, a0), "input modified")
    exp = []
    for row in np.atleast_2d(a):
        last = row[0]
        r = []
        for x in row:
            if x != fill:
                last = x
            r.append(last)
        exp.append(r)
    exp = np.array(exp[0] if m == 0 else exp)
    t.same(got, exp, f"ffill({a.tolist()}, {fill})")
    t.mark((a == fill).any() and (a != fill).any())


@st.composite
def images(draw):
    n, m = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    p = draw(st.sampled_from([[0, 0, 0, 1], [0, 1], [0, 1, 1]]))
    return [draw(st.lists(st.sampled_from(p), min_size=m, max_size=m)) for _ in range(n)]


def components(a, neigh):
    a = np.asarray(a)
    seen = set()
    out = []
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if a[i, j] and (i, j) not in seen:
                comp, stack = [], [(i, j)]
                seen.add((i, j))
                while stack:
                    p = stack.pop()
                    comp.append(p)
                    for d in neigh:
                        q = (p[0] + d[0], p[1] + d[1])
                        if 0 <= q[0] < a.shape[0] and 0 <= q[1] < a.shape[1] and a[q] and q not in seen:
                            seen.add(q)
                            stack.append(q)
                out.append(comp)
    return out


N4 = [(0, 1), (1, 0), (0, -1), (-1, 0)]
N8 = N4 + [(1, 1), (1, -1), (-1, 1), (-1, -1)]
NX = [(1, 0), (-1, 0)]


@c.sub("filters", st.tuples(images(), st.integers(0, 6)), quick=500)
def _(case, t):
    a = np.array(case[0])
    for fun, neigh in ((utils.filter_isolated_pixels, N8), (utils.filter_x_pixels, NX)):
        a0 = a.copy()
        got = fun(a)
        t.ok(np.array_equal(a, a0), f"{fun.__name__} modified its input")
        exp = a.copy()
        for comp in components(a, neigh):
            if len(comp) == 1:
                exp[comp[0]] = 0
        t.same(got, exp, f"{fun.__name__}({a.tolist()})")
        t.same(fun(a.astype(bool)).astype(int), exp, f"{fun.__name__} bool")
    k = case[1]
    for conn, neigh in ((1, N4), (2, N8)):
        got = utils.remove_small_objects(a.astype(bool), k, conn)
        exp = np.zeros(a.shape)
        for comp in components(a, neigh):
            if len(comp) > k:
                for p in comp:
                    exp[p] = 1
        t.same(np.asarray(got).astype(int), exp, f"remove_small_objects({a.tolist()}, {k}, {conn})")
    sizes = [len(x) for x in components(a, N8)]
    t.mark(len(sizes) > 1 and min(sizes) == 1 and max(sizes) > 1)


@c.sub("geometry", st.tuples(st.lists(st.integers(1, 200), min_size=2, max_size=10), st.integers(0, 90), st.integers(0, 4000)), quick=300)
def _(case, t):
    gaps, tilt, start = case
    x = start + np.cumsum(np.array(gaps)) * 0.5
    x0 = x.copy()
    lo = utils.edges2mid(x, "lower")
    hi = utils.edges2mid(x, "upper")
    n = len(x)
    t.same(lo, [x[i] + ((x[i + 1] - x[i]) if i < n - 1 else (x[-1] - x[-2])) / 2 for i in range(n)], "edges2mid lower")
    t.same(hi, [x[i] - ((x[i] - x[i - 1]) if i > 0 else (x[1] - x[0])) / 2 for i in range(n)], "edges2mid upper")
    t.same(utils.range_to_height(x, tilt), [v * math.cos(math.pi * tilt / 180) for v in x], "range_to_height", atol=1e-6)
    pl = utils.path_lengths_from_ground(x)
    t.same(pl, [x[0]] + [x[i] - x[i - 1] for i in range(1, n)], "path lengths")
    t.same(utils.mdiff(x), float(np.median(np.diff(x))), "mdiff")
    t.ok(np.array_equal(x, x0), "input modified")
    t.mark(len(set(gaps)) > 1 and 0 < tilt < 90)


@c.sub("n_elements", st.tuples(st.integers(2, 20), st.integers(1, 60), st.integers(0, 4000), st.booleans()), quick=300)
def _(case, t):
    n, step, dist, is_time = case
    if is_time:  # step in seconds, distance in minutes
        x = 1.0 + np.arange(n) * step / 3600
        exact = dist / 10 * 60 / step
        got = utils.n_elements(x, dist / 10, "time")
    else:
        x = 100.0 + np.arange(n) * step
        exact = dist / step
        got = utils.n_elements(x, dist)
    t.ok(isinstance(got, int) and abs(got - exact) <= 0.5 + 1e-6, f"n_elements: got {got}, exact {exact}")
    t.mark(abs(exact - round(exact)) > 0.01)


@c.sub("norms", st.tuples(st.integers(1, 6), st.lists(st.tuples(VAL, VAL, VAL, st.booleans(), st.booleans()), min_size=6, max_size=6), st.integers(1, 8), st.lists(st.integers(0, 5), min_size=2, max_size=2), st.booleans()), quick=300)
def _(case, t):
    n, rows, scale, w, plain = case
    rows = rows[:n]
    a, b, k = (np.array([r[i] for r in rows]) for i in range(3))
    ma_, mb = np.array([r[3] for r in rows]), np.array([r[4] for r in rows])
    if plain:
        got = utils.l2norm(a, b, k)
        t.same(got, np.sqrt(a**2 + b**2 + k**2), "l2norm", rtol=1e-9)
    else:
        x, y = ma.array(a.copy(), mask=ma_.copy()), ma.array(b.copy(), mask=mb.copy())
        got = utils.l2norm(x, y, 2.0)
        t.same(got, ma.array(np.sqrt(a**2 + b**2 + 4), mask=ma_ | mb), "l2norm masked", rtol=1e-9)
        t.ok(np.array_equal(x.data, a) and np.array_equal(y.data, b) and np.array_equal(ma.getmaskarray(x), ma_), "input modified")
    got = utils.l2norm_weighted((float(a[0]), float(b[0])), scale, tuple(w))
    t.same(float(got), scale * math.sqrt((w[0] * a[0]) ** 2 + (w[1] * b[0]) ** 2), "l2norm_weighted", rtol=1e-9)
    ref = np.where(a == 0, 1.0, a)
    t.same(utils.calc_relative_error(ref, b), (b - ref) / ref * 100, "relative error")
    t.mark(n > 1 and (plain or (ma_.any() and not ma_.all())))


@c.sub("probability", st.tuples(st.lists(st.tuples(VAL, st.booleans()), min_size=1, max_size=8), st.integers(-20, 20), st.integers(1, 20), st.booleans()), quick=300)
def _(case, t):
    rows, loc, scale, inv = case
    v = np.array([r[0] for r in rows])
    m = np.array([r[1] for r in rows])
    a = ma.array(v.copy(), mask=m.copy())
    got = utils.array_to_probability(a, loc, scale, invert=inv)
    z = (v - loc) / scale * (-1 if inv else 1)
    exp = [0.0 if m[i] else 0.5 * (1 + math.erf(z[i] / math.sqrt(2))) for i in range(len(v))]
    t.same(got, exp, "probability", atol=1e-9)
    t.ok(np.array_equal(a.data, v) and np.array_equal(ma.getmaskarray(a), m), "input modified")
    t.mark(m.any() and not m.all())


# ---------------------------------------------------------------- time
EPOCH = st.tuples(st.integers(1901, 2022), st.integers(1, 12), st.integers(1, 28))


@c.sub("epoch_valid", st.tuples(st.dates(datetime.date(1901, 1, 1), datetime.date(2023, 12, 31)), st.sampled_from(["{d} 00:00:00", "{d}", "{d}T00:00:00Z", "{d}, 00:00:00 UTC", "{d} 00:00:00 +00:00", "DOT"]), st.sampled_from(["seconds since ", "hours since ", "Seconds since "])), quick=400)
def _(case, t):
    d, form, pre = case
    s = f"{d.year}-{d.month}-{d.day}" if d.day % 2 else d.isoformat()
    txt = pre + (f"{d.day if False else d.year}.{d.month:02d}.{d.day:02d}" if form == "DOT" else form.format(d=s))
    t.eq(utils.get_epoch(txt), datetime.datetime(d.year, d.month, d.day, tzinfo=UTC), f"epoch of {txt!r}")
    t.mark()


@c.sub("epoch_invalid", st.sampled_from(["", "seconds", "seconds since", "seconds since 1.1.", "seconds since foo", "seconds since 1900-13-01", "since 2021-13-05", "seconds since 2021-13-05 00:00", "seconds since 0000-00-00", "seconds since 9999-01-01", "seconds since 2021-02-30", "seconds since 2021-04-31 00:00:00", "seconds since 2021-05", "seconds since 2021-05-01-02", "seconds since 2023-02-29", "seconds since 2021-00-10", "seconds since 2021-01-00", "seconds since 2021-01-32", "seconds since 1900-01-01", "seconds since midnight"]), quick=60)
def _(case, t):
    t.eq(utils.get_epoch(case), datetime.datetime(2001, 1, 1, tzinfo=UTC), f"epoch of {case!r}")
    t.mark()


@c.sub("conversions", st.tuples(st.integers(0, 8 * 10**8), st.integers(0, 999), EPOCH), quick=300)
def _(case, t):
    s, ms, e = case
    epoch = datetime.datetime(*e, tzinfo=UTC)
    t.eq(utils.seconds2date(s + ms / 1000, epoch=epoch).replace(microsecond=0), epoch + datetime.timedelta(seconds=s), "seconds2date")
    t.eq(utils.seconds2date(s), datetime.datetime(2001, 1, 1, tzinfo=UTC) + datetime.timedelta(seconds=s), "seconds2date default epoch")
    x = np.array([s - s % 86400, s - s % 86400 + 1, s], dtype=float)
    x0 = x.copy()
    exp = [0.0, 1 / 3600, (s % 86400) / 3600 if s % 86400 else 24.0]
    t.same(utils.seconds2hours(x), exp, "seconds2hours", atol=1e-9)
    t.ok(np.array_equal(x, x0), "input modified")
    d = epoch + datetime.timedelta(seconds=s % 86400, milliseconds=ms)
    t.same(utils.datetime2decimal_hours([d]), [(s % 86400 + ms / 1000) / 3600], "datetime2decimal_hours", rtol=1e-12, atol=1e-9)
    t.mark(ms > 0)


@st.composite
def stamps(draw):
    e = draw(EPOCH)
    d = draw(st.integers(0, 3000))  # days from epoch to the expected date
    n = draw(st.integers(1, 24))
    pool = draw(st.lists(st.integers(0, 86399), min_size=1, max_size=8))
    out = []
    for _ in range(n):
        day = draw(st.sampled_from([0, 0, 0, 0, 0, 0, -1, 1, 365, -365]))
        sec = draw(st.one_of(st.sampled_from(pool), st.integers(0, 86399), st.sampled_from([0, 86399])))
        frac = draw(st.sampled_from([0, 0, 0, 0, 250, 500, 999]))
        out.append([day, sec, frac])
    return {"epoch": list(e), "day": d, "rows": out, "int": draw(st.booleans()), "masked": draw(st.booleans())}


@c.sub("screen", stamps(), quick=800, shards=2)
def _(case, t):
    epoch = datetime.datetime(*case["epoch"], tzinfo=UTC)
    expected = (epoch + datetime.timedelta(days=case["day"])).date()
    rows = [[d, s, 0 if case["int"] else f] for d, s, f in case["rows"]]
    time = np.array([(case["day"] + d) * 86400 + s + f / 1000 for d, s, f in rows], dtype=int if case["int"] else float)
    n = len(time)
    ids = np.arange(n)
    other = np.arange(n + 3)
    data = {
        "time": time.copy(), "id1": ids * 1.0, "id2": np.stack([ids, ids + 100], axis=1), "id3": np.broadcast_to(ids[:, None, None], (n, 2, 2)).copy(),
        "masked": ma.array(ids * 1.0, mask=[i % 3 == 0 for i in ids]), "range": other, "scalar": np.array(5.0), "float": 7.5, "one": [3],
    }
    keep = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in data.items()}
    good = sorted({(s, f) for d, s, f in rows if d == 0})
    try:
        got = utils.screen_by_time(data, epoch, expected)
        idx = utils.find_valid_time_indices(time, epoch, expected)
    except ValidTimeStampError:
        t.ok(not good, "documented exception although the date has samples")
        t.label("nodata")
        return
    t.ok(good, "no exception although the date has no samples")
    exp_time = [case["day"] * 86400 + s + f / 1000 for s, f in good]
    t.same(np.asarray(got["time"], dtype=float), exp_time, "screened times", rtol=0, atol=1e-4)
    t.same(np.asarray(time[idx], dtype=float), exp_time, "valid indices", rtol=0, atol=1e-4)
    k = got["id1"].astype(int)
    t.same(time[k], got["time"], "rows and times", rtol=0, atol=1e-6)
    t.same(got["id2"], keep["id2"][k], "2-D rows")
    t.same(got["id3"], keep["id3"][k], "3-D rows")
    t.same(got["masked"], keep["masked"][k], "masked rows")
    t.same(got["range"], other, "array of another dimension")
    t.ok(got["scalar"] == 5.0 and got["float"] == 7.5 and got["one"] == [3], "scalars changed")
    for key, v in keep.items():
        t.ok(np.array_equal(ma.getdata(data[key]), ma.getdata(v)), f"input {key} modified")
    dup = len(good) < sum(1 for d, _, _ in rows if d == 0)
    t.label("dup", dup)
    t.mark(dup or any(r[0] for r in rows) or list(time) != sorted(time))


@c.sub("misc", st.tuples(st.lists(st.lists(st.tuples(VAL, st.booleans()), min_size=3, max_size=3), min_size=1, max_size=6), st.integers(1, 40), st.dates(datetime.date(1990, 1, 1), datetime.date(2030, 1, 1)), st.lists(st.sampled_from("abcdef"), max_size=4, unique=True)), quick=300)
def _(case, t):
    rows, n, date, keys = case
    v = np.array([[x[0] for x in r] for r in rows])
    m = np.array([[x[1] for x in r] for r in rows])
    a = ma.array(v, mask=m)
    t.eq([int(i) for i in utils.find_masked_profiles_indices(a)], [i for i in range(len(rows)) if m[i].all()], "masked profiles")
    t.eq(utils.is_all_masked(a), bool(m.all()), "is_all_masked")
    t.eq(utils.is_all_masked(v), False, "is_all_masked of plain array")
    t.eq(utils.isscalar(v[0]), False, "isscalar(array of 3)")
    t.ok(utils.isscalar(v[0, :1]) and utils.isscalar(3.0) and utils.isscalar(np.array(1)), "isscalar")
    end = date + datetime.timedelta(days=n)
    t.eq(list(utils.date_range(date, end)), [date + datetime.timedelta(days=i) for i in range(n)], "date_range")
    d = {k: ord(k) for k in "abcxyz"}
    got = utils.del_dict_keys(d, keys)
    t.eq(got, {k: x for k, x in d.items() if k not in keys}, "del_dict_keys")
    t.eq(len(d), 6, "del_dict_keys modified its input")
    src = {"k": a}
    o1 = utils.append_data(src, "k", a[:1])
    o2 = utils.append_data(src, "n", a)
    t.same(o1["k"], ma.concatenate((a, a[:1])), "append_data")
    t.same(o2["n"], a, "append_data new key")
    t.ok(list(src) == ["k"] and src["k"].shape == a.shape, "append_data modified its input")
    t.same(utils.transpose(v[0]), v[0][:, None], "transpose")
    t.mark(m.any())


@c.sub("band", st.integers(1, 1200), quick=300)
def _(case, t):
    f = case / 10
    exp = "X" if 8 < f < 12 else "Ka" if 27 < f < 40 else "W" if 75 < f < 110 else None
    try:
        got = utils.get_wl_band(f)
    except ValueError:
        got = None
    t.eq(got, exp, f"band of {f} GHz")
    t.mark(exp is not None)


c.main()
