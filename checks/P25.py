import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy.model_evaluation.statistics import statistical_methods as sm

c = Check(
    "P25",
    "Pairs of model and observation fields with all kinds of masks (none at all, scalar, partial, complete), NaN observations, zeros, value ranges of the three products and related fields (equal, scaled, disjoint) go through every statistic; results are recomputed pixel by pixel.  "
    "Non-trivial: at least two pixels valid in both fields and at least one valid in only one of them.",
)
NAMES = {"cf": "Cloud fraction", "iwc": "Ice water content", "lwc": "Liquid water content"}


@st.composite
def pair_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"n": S(3, 1, 8, 24), "m": S(4, 1, 3, 12), "product": S("cf", "iwc", "lwc"), "dtype": S("f8", "f4"), "mm": S("some", "nomask", "none", "all", "most", "columns"), "om": S("some", "nomask", "none", "all", "most", "columns"),
            "nan": S(0.0, 0.1, 0.6), "zeros": S(False, True), "relation": S("free", "equal", "scaled", "below", "close"), "plain": S(False, False, True), "seed": draw(st.integers(0, 2**31))}


def masked(x, kind, r):
    if kind == "nomask":
        return ma.array(x)
    if kind == "columns":
        m = np.broadcast_to(r.random((1, x.shape[1])) < 0.5, x.shape)
    else:
        m = r.random(x.shape) < {"some": 0.3, "none": 0.0, "all": 1.0, "most": 0.9}[kind]
    return ma.array(x, mask=np.array(m))


def fields(case):
    r = rng(case["seed"])
    shape = (case["n"], case["m"])

    def values():
        if case["product"] == "cf":
            return np.round(r.uniform(0, 1, shape), 2) + 0.003
        return 10 ** r.uniform(-6, -3, shape)

    obs = values()
    if case["zeros"]:
        obs[r.random(shape) < 0.3] = 0
    model = {"free": values(), "equal": obs.copy(), "scaled": 2 * obs, "below": np.abs(values()) * 1e-3, "close": obs * (1 + r.normal(0, 0.05, shape))}[case["relation"]]
    model, obs = model.astype(case["dtype"]), obs.astype(case["dtype"])
    obs[r.random(shape) < case["nan"]] = np.nan
    if case["plain"]:
        return model, obs
    return masked(model, case["mm"], r), masked(obs, case["om"], r)


def valid_sets(model, obs):
    """Pixels of each field that take part: the model counts from the smallest observation on."""
    o = ~ma.getmaskarray(obs) & ~np.isnan(ma.getdata(obs))
    m = ~ma.getmaskarray(model)
    if o.any():
        m = m & (ma.getdata(model) >= ma.getdata(obs)[o].min())
    return m, o


def run(t, case, method, model, obs):
    name = NAMES[case["product"]]
    before = [(ma.getdata(x).copy(), ma.getmaskarray(x).copy()) for x in (model, obs)]
    d = sm.DayStatistics(method, [case["product"], "Some model", name], model, obs)
    for x, (data, mask), what in zip((model, obs), before, ("model", "observation")):
        t.ok(np.array_equal(ma.getdata(x), data, equal_nan=True) and np.array_equal(ma.getmaskarray(x), mask), f"{method} changed the {what} field")
    t.eq(d.title, ("Some model", name) if method in ("hist", "vertical") else f"{name} vs Some model", "title")
    return d.model_stat, d.observation_stat


def missing(x):
    """Masked array in which NaN is missing, too."""
    x = ma.array(x, dtype=float)
    return ma.array(x.data, mask=ma.getmaskarray(x) | np.isnan(x.data))


@c.sub("statistics", pair_case(), quick=400, thorough=6000, shards=4)
def _(case, t):
    model, obs = fields(case)
    m, o = valid_sets(model, obs)
    both, either = m & o, m | o
    M, O = ma.getdata(model).astype(float), ma.getdata(obs).astype(float)  # noqa: E741
    big = both & (np.abs(O) > 0)
    rel = ma.masked_all(M.shape)
    rel[big] = (M[big] - O[big]) / O[big] * 100
    got, text = run(t, case, "error", model, obs)
    t.eq(text, "", "text")
    t.same(missing(got), rel, "relative error", rtol=1e-4, atol=0.0051)
    diff = ma.masked_all(M.shape)
    diff[both] = (O[both] - M[both]) * 100
    got, text = run(t, case, "aerror", model, obs)
    t.same(missing(got), diff, "absolute error", rtol=1e-4, atol=0.0051)
    got, text = run(t, case, "area", model, obs)
    share = 100 * both.sum() / either.sum() if both.any() else 0.0
    t.same(got, share, "common area", rtol=0, atol=0.0051)
    t.ok(abs(got * 100 - round(float(got) * 100)) < 1e-6, "common area is not rounded to two decimals")
    t.ok(0 <= got <= 100, f"common area is {got} %")
    # histogram
    decimals = 1 if case["product"] == "cf" else 6
    there = ~ma.getmaskarray(model)
    seen = ~ma.getmaskarray(obs) & ~np.isnan(O)
    hm, ho = run(t, case, "hist", model, obs)
    if seen.any():
        x = np.round(O[seen], decimals)
        top = x.max() if x.max() > x.min() else x.max() + 0.5
        t.same(np.asarray(ho, float), x, "observed values", rtol=1e-5, atol=1.0 * 10**-decimals * 1e-3 if not near(O[seen], decimals) else 1.01 * 10.0**-decimals)
        y = np.minimum(np.round(M[there], decimals), top)
        t.same(np.asarray(hm, float), y, "modelled values", rtol=1e-5, atol=1e-3 * 10**-decimals if not (near(M[there], decimals) or near(O[seen], decimals)) else 1.01 * 10.0**-decimals)
    # profiles
    vm, vo = run(t, case, "vertical", model, obs)
    for got, data, use, what in ((vm, M, there, "model profile"), (vo, O, seen, "observed profile")):
        exp = ma.masked_all(M.shape[1])
        for j in range(M.shape[1]):
            if use[:, j].any():
                exp[j] = data[use[:, j], j].mean()
        t.same(missing(got), exp, what, rtol=1e-4, atol=1e-12)
    if case["relation"] == "equal" and both.any():
        t.ok(np.all(rel.compressed() == 0) and np.all(diff.compressed() == 0), "equal fields differ")
        if np.array_equal(m, o):
            t.ok(share == 100, "equal fields do not overlap")
    t.mark(both.sum() > 1 and np.any(m ^ o))
    t.label("model below observations", bool(np.any(~ma.getmaskarray(model) & ~m)))
    t.label("nothing in common", not both.any())
    t.label("no observations", not o.any())
    t.label("zero observation", bool(np.any(both & (O == 0))))
    for k in ("mm", "om", "relation", "product"):
        t.label(f"{k} {case[k]}")


def near(x, decimals):
    f = np.abs(x * 10**decimals)
    return bool(np.any(np.abs(f - np.floor(f) - 0.5) < 1e-3))


FUNCS = {"error": sm.relative_error, "aerror": sm.absolute_error, "area": sm.calc_common_area_sum, "vertical": sm.vertical_profile}


@c.sub("functions", pair_case(), quick=300, thorough=4000, shards=2)
def _(case, t):
    """The functions agree with the class, with reordered pixels and with refilled masked values."""
    model, obs = fields({**case, "plain": False})
    r = rng(case["seed"] + 1)
    a, b = r.permutation(case["n"]), r.permutation(case["m"])
    for method, fn in FUNCS.items():
        first = run(t, case, method, model, obs)[0]
        second = fn(model.copy(), obs.copy())[0]
        t.same(missing(first), missing(second), f"{method} of class and function")
        other = fn(model[a][:, b].copy(), obs[a][:, b].copy())[0]
        ref = missing(first)
        if ref.ndim == 2:
            ref = ref[a][:, b]
        elif ref.ndim == 1:
            ref = ref[b]
        t.same(missing(other), ref, f"{method} of reordered pixels", rtol=1e-5, atol=0.011 if method != "vertical" else 1e-9)
        filled = []
        for x in (model, obs):
            y = ma.array(x, copy=True)
            y.data[ma.getmaskarray(x)] = r.choice([0.0, 1e9, -5.0])
            filled.append(y)
        t.same(missing(fn(*filled)[0]), missing(first), f"{method} after other values below the mask", rtol=1e-5, atol=0.011 if method != "vertical" else 1e-9)
    m, o = valid_sets(model, obs)
    t.mark((m & o).sum() > 1 and np.any(m ^ o))


@c.sub("methods", st.sampled_from(["", "Error", "areas", "mean", "histogram", "verticals", "ERROR"]), quick=7, thorough=7)
def _(case, t):
    x = ma.array(np.ones((2, 2)))
    t.mark()
    try:
        sm.DayStatistics(case, ["cf", "m", "Cloud fraction"], x, x)
    except RuntimeError as e:
        t.ok(case in str(e), "message")
        return
    t.fail("no exception for an unknown method")


c.main()
