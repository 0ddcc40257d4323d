"""Independent reference of target classification, attenuation correction and quality reporting on gridded fields.

`fields` holds masked arrays Z, v, v_sigma, beta, Tw (steps x gates), optionally width, ldr, sldr, and lwp, rate, num, wawa (steps), time (hours).
`site` holds height, altitude, model (type), radar (source).
"""
import math

import numpy as np
from numpy import ma
from scipy import ndimage, stats

T0 = 273.16
BITS = ("droplet", "falling", "freezing", "melting", "aerosol", "insect")


def there(x):
    return ~ma.getmaskarray(x)


def runs(row):
    """(first, last) of every run of true values."""
    out, a = [], None
    for j, x in enumerate(row):
        if x and a is None:
            a = j
        if not x and a is not None:
            out.append((a, j - 1))
            a = None
    if a is not None:
        out.append((a, len(row) - 1))
    return out


def n_within(x, dist):
    return int(np.round(dist / np.median(np.diff(x))))


def above_first(b):
    """The lowest true pixel of each profile and everything above it."""
    return np.maximum.accumulate(b, axis=1)


def is_rain(f, site):
    z, v = f["Z"], f["v"]
    n, m = z.shape
    col = there(z).any(axis=0)
    j = min((int(np.argmax(col)) if col.any() else 0) + 3, m - 1)
    d = f.get("ldr", f.get("sldr"))
    out = np.zeros(n, bool)
    tw = f["Tw"]
    for i in range(n):
        if "rate" in f and there(f["rate"])[i] and there(f["num"])[i]:
            r = f["rate"][i] * 3.6e6 > 0.25 and f["num"][i] > 30
        else:
            r = there(z)[i, j] and z[i, j] > 3 and there(v)[i, j] and v[i, j] < 0
            if r and d is not None:
                r = bool(there(d)[i, j] and d[i, j] < -15)
        if "wawa" in f and there(f["wawa"])[i]:
            r = r and 57 <= f["wawa"][i] <= 68
        else:
            r = r and tw[i, 0] > T0 + 5
        out[i] = r
    return out


def clutter(f, rain):
    v = f["v"]
    out = np.zeros(v.shape, bool)
    out[:, :10] = (there(v) & (np.abs(v.filled(99)) < 0.05))[:, :10]
    out[rain] = False
    return out


def top_of_peak(d, peak, end, lim):
    """Uppermost gate of the falling side of a peak; None if the profile does not fall."""
    seg = d[peak:end]
    if len(seg) == 0 or seg.min() >= 0:
        return None
    return peak + max(k for k in range(len(seg)) if seg[k] < seg.min() / lim) + 1


def base_of_peak(d, peak, dist, lim):
    start = max(peak - dist, 0)
    seg = d[start:peak]
    if len(seg) == 0 or seg.max() <= 0:
        return None
    return start + min(k for k in range(len(seg)) if seg[k] > seg.max() / lim)


def melting(f, site):
    tw, height = f["Tw"], site["height"]
    n, m = tw.shape
    lo, hi = (-8, 6) if "gdas1" in site["model"] else (-4, 3)
    out = np.zeros((n, m), bool)
    has = {k: there(f[k]) for k in ("Z", "v", "ldr", "width") if k in f}
    for i in range(n):
        w = np.where((tw[i] > T0 + lo) & (tw[i] < T0 + hi))[0]
        if len(w) < 2 or w[0] == w[-1]:
            continue
        a, b = w[0], w[-1] + 1
        nv = has["v"][i, a:b].sum()
        nl = has["ldr"][i, a:b].sum() if "ldr" in f else 0
        if max(nv, nl) <= 3:
            continue
        v = f["v"].filled(np.nan)[i, a:b]
        z = f["Z"].filled(np.nan)[i, a:b]
        peak = base = top = None
        if nl:
            ldr = f["ldr"].filled(np.nan)[i]
            d = np.nan_to_num(np.append(np.diff(ldr), 0))[a:b]
            ldr = ldr[a:b]
            peak = int(np.nanargmax(ldr))
            base, top = base_of_peak(d, peak, 10, 2), top_of_peak(d, peak, peak + 10, 2)
        if base is not None and top is not None:
            if ldr[peak] - ldr[base] > 4 and ldr[peak] > -30 and z[base] > -25 and v[base] < -1.5:
                out[i, a + base + (peak - base) // 2:a + top] = True
            continue
        up = runs([v[k + 1] > v[k] for k in range(len(v) - 1)])
        if not up:
            continue
        length = max(q - p for p, q in up)
        p, top = [r for r in up if r[1] - r[0] == length][0]
        base = p - 1
        if base < 0:
            continue
        dh = height[a + top] - height[a + base]
        dv = v[top] - v[base]
        ok = 50 < dh < 1000 and v[base] < -2
        if "width" in f:
            wd = f["width"].filled(np.nan)[i, a:b]
            ok = ok and wd[base] - wd[top] > 0.2 and dv > 0.5
        else:
            ok = ok and dv > 2
        if ok:
            out[i, a + round(top - (top - base) / 2):a + top] = True
    return ndimage.gaussian_filter(out.astype(float), (2, 0.1)) > 0.2


def zero_level(tw, height):
    out = []
    for p in tw:
        w = np.where(p < T0)[0]
        if not len(w):
            out.append(2 * height[-1] - height[-2])
        elif w[0] == 0:
            out.append(height[0])
        else:
            j = w[0]
            out.append(height[j - 1] + (p[j - 1] - T0) / (p[j - 1] - p[j]) * (height[j] - height[j - 1]))
    return np.array(out)


def freezing(f, site, melt):
    height, time = site["height"], f["time"]
    n = len(time)
    t0 = zero_level(np.asarray(f["Tw"]), height)
    mid = np.array([np.median(height[r]) if r.any() else np.nan for r in melt])
    if np.isnan(mid).all() and (t0 <= height[0]).all():
        return np.ones(melt.shape, bool)
    alt = mid.copy()
    for i in (0, n - 1):
        if np.isnan(alt[i]):
            alt[i] = t0[i]
    win = int(np.round(240 / np.median(np.diff(time)) / 60))
    for i in range(n - win):
        if np.isnan(mid[i:i + win]).all():
            alt[i + win // 2] = t0[i + win // 2]
    ok = ~np.isnan(alt)
    level = np.interp(time, time[ok], alt[ok]) - 1
    return height[None, :] > level[:, None]


def lwp_everywhere(f):
    n = len(f["time"])
    if "lwp" not in f or not there(f["lwp"]).any():
        return np.zeros(n)
    ok = there(f["lwp"]) & (f["lwp"].filled(0) != 0)
    return np.interp(f["time"], f["time"][ok], f["lwp"].data[ok])


def liquid(f, site):
    height = site["height"]
    beta, ok = f["beta"].filled(0), there(f["beta"])
    n, m = beta.shape
    lwp = lwp_everywhere(f)
    below, above = n_within(height, 200), n_within(height, 150)
    out = np.zeros((n, m), bool)
    for i in range(n):
        b = beta[i]
        d = np.where(ok[i, 1:] & ok[i, :-1], np.diff(b), 0)
        for j in range(1, m - 1):
            near = [b[k] for k in range(max(0, j - 4), min(m, j + 5)) if k != j]
            if b[j] <= 1e-6 or b[j] <= max(near):
                continue
            base, top = base_of_peak(d, j, below, 4), top_of_peak(d, j, min(j + above, m), 4)
            if base is None or top is None:
                continue
            good = (
                np.count_nonzero(b[base:top + 1]) >= 3 and height[top] - height[base] < 300 and (b[j] - b[top]) / (height[top] - height[j]) > 1e-7
                and lwp[i] >= 0 and height[j] - height[0] > 100
            )
            if good:
                out[i, base:top + 1] = True
    return out


def correct_top(f, site, liq, cold):
    out = liq.copy()
    n, m = liq.shape
    more = n_within(site["height"], 500)
    for i in range(n):
        for _, top in runs(liq[i]):
            first_cold = [j for j in range(top, m) if cold[i, j]]
            last = min(m - 1, first_cold[0] + more) if first_cold else m - 1
            echo = there(f["Z"])[i, top:last + 1]
            if echo.all() or not echo.any():
                continue
            for j in range(top, last + 1):
                if not echo[j - top]:
                    break
                out[i, j] = True
    return out


def prob(x, loc, scale, invert=False):
    y = stats.norm.cdf((ma.filled(x.astype(float), 0) - loc) / scale * (-1 if invert else 1))
    return np.where(there(x), y, 0)


def insects(f, site, melt, liq, rain):
    z, tw = f["Z"], f["Tw"]
    echo = there(z)
    sv = ma.array(ndimage.gaussian_filter(f["v"].filled(0), (5, 5)), mask=ma.getmaskarray(f["v"]))
    others = prob(z, -20, 8, True) * prob(tw, 274, 1) * prob(sv, -3.5, 2)
    if "width" in f:
        others = others * prob(f["width"], 1, 0.3, True)
    if "mira" in site["radar"].lower():
        others = others * prob(ma.array(lwp_everywhere(f)), 0.15, 0.05, True)[:, None]
    p = np.zeros(z.shape)
    if "ldr" in f:
        p = prob(f["ldr"], -25, 5) * prob(tw, 268, 2)
    elif "sldr" in f:
        s = prob(f["sldr"], -25, 5)
        vs = f["v_sigma"]
        weak = np.where(there(vs), 0, prob(z, -30, 5, True))
        p = np.maximum(np.maximum(s, prob(vs, 0.2, 0.15)), weak) * (prob(f["width"], 0.3, 0.1, True) if "width" in f else 1) * prob(tw, 265, 3)
        sure = s * prob(tw, 268, 2)
        p = np.where(sure > 0.9, sure, p)
    p = np.maximum(p, others)
    p[liq | above_first(melt)] = 0
    p[above_first(liq) & (others > 0)] = 0
    p[rain] = 0
    return p


def falling(f, site, liq, bug, clut):
    echo, lid = there(f["Z"]), there(f["beta"])
    out = echo & ~bug & ~clut
    n, m = out.shape
    z = f["Z"]
    for i in range(n):
        for a, b in runs(liq[i]):
            if b == m - 1 or echo[i, b + 1]:
                continue
            zz = z[i, a:b + 1].compressed()
            if len(zz) > 1 and zz[-1] > zz[0]:
                out[i, a:b + 1] = False
    agl = site["height"] - site["altitude"]
    for i in range(n):
        for j in range(m):
            if not lid[i, j] or liq[i, j] or f["Tw"][i, j] >= T0 - 15 or agl[j] < 2000:
                continue
            if agl[j] < 4000 and lid[i, max(0, j - 5):j + 1].sum() > 2:
                continue
            out[i, j] = True
    return out


def undetected_melting(b, f):
    n, m = b["falling"].shape
    for i in range(n):
        if "lwp" in f and there(f["lwp"])[i] and not f["lwp"][i] > 0.005:
            continue
        for j in range(m - 1):
            rain = b["falling"][i, j] and not b["droplet"][i, j] and not b["freezing"][i, j]
            k = j + 1
            ice = b["freezing"][i, k] and (b["droplet"][i, k] or b["falling"][i, k])
            if rain and ice:
                b["melting"][i, k] = True


def insect_screen(b):
    up = above_first(b["melting"])
    b["falling"] |= b["insect"] & up
    b["insect"] &= ~up
    first = b["insect"].copy()
    n, m = first.shape
    b.setdefault("moved", np.zeros((n, m), bool))
    for i, j in zip(*np.where(b["melting"])):
        if b["falling"][i, :j].sum() <= 5:
            # (the pixels right below are moved only together with their neighbours)
            continue
        for k in range(max(0, j - 5), j):
            if first[i, k]:
                b["falling"][i, k], b["insect"][i, k] = True, False
        for x in range(max(0, i - 5), min(n, i + 6)):
            if first[x, j]:
                for k in range(max(0, j - 1), min(m, j + 2)):
                    if b["insect"][x, k]:
                        b["falling"][x, k], b["insect"][x, k] = True, False
                        b["moved"][x, k] = x != i


def classify(f, site):
    """Dictionary of the six target bits plus rain, clutter and insect probability."""
    echo, lid, tw = there(f["Z"]), there(f["beta"]), np.asarray(f["Tw"])
    rain = is_rain(f, site)
    clut = clutter(f, rain)
    b = {}
    b["melting"] = melting(f, site)
    b["freezing"] = freezing(f, site, b["melting"])
    b["droplet"] = correct_top(f, site, liquid(f, site), b["freezing"])
    p = insects(f, site, b["melting"], b["droplet"], rain)
    b["insect"] = p > 0.8
    b["falling"] = falling(f, site, b["droplet"], b["insect"], clut)
    for _ in range(5):
        undetected_melting(b, f)
        insect_screen(b)
    b["aerosol"] = lid & ~b["falling"] & ~b["droplet"]
    frozen = b["droplet"] & (tw < T0 - 38)
    b["droplet"] &= ~frozen
    b["falling"] |= frozen
    if "ldr" in f:
        bug = b["falling"] & b["freezing"] & ~b["droplet"] & ~above_first(b["melting"]) & there(f["ldr"]) & (f["ldr"].filled(-99) > -13) & (tw > T0 - 10)
        b["insect"] |= bug
        b["falling"] &= ~bug
        b["aerosol"] |= bug & lid
    lab, _ = ndimage.label(b["falling"])
    size = np.bincount(lab.ravel())
    big = (lab > 0) & (size[lab] >= 100)
    ice = b["insect"] & b["freezing"] & near(near(big))
    b["falling"] |= ice
    b["insect"] &= ~ice
    b["aerosol"] &= ~ice
    lab, _ = ndimage.label(b["falling"])
    size = np.bincount(lab.ravel())
    small = (lab > 0) & (size[lab] <= 10)
    b["falling"] &= ~small
    b["insect"] |= small & ~b["freezing"]
    b["aerosol"] |= small & lid
    wrong = clut & near(b["droplet"] | b["falling"])
    clut = clut & ~wrong
    b["falling"] |= wrong
    return {**b, "rain": rain, "clutter": clut, "insect_prob": p}


def near(x):
    p = np.pad(x, 1)
    return p[1:-1, 1:-1] | p[:-2, 1:-1] | p[2:, 1:-1] | p[1:-1, :-2] | p[1:-1, 2:]


# -- attenuation --------------------------------------------------------------
def attenuation(f, site, b, rain):
    """Two-way attenuations (dB), their errors, and where each one acts / is left uncorrected.

    `f` holds T, P on the gates, gas, gas_saturated, liquid_atten (specific, on gate centres' lower halves), and lwp, lwp_error, rate.
    """
    import atmoslib

    agl = site["height"] - site["altitude"]
    dz = np.diff(agl, prepend=0)
    n, m = b["droplet"].shape
    warm = ~b["freezing"]
    freq = site["freq"]
    out = {}
    k = np.where(b["droplet"], f["gas_saturated"], f["gas"])
    gas = np.array([[2e-3 * np.sum(k[i, :j + 1] * dz[:j + 1]) for j in range(m)] for i in range(n)])
    out["gas"] = {"amount": ma.array(gas), "error": ma.array(0.1 * gas), "on": np.ones((n, m), bool), "missing": np.zeros((n, m), bool)}

    liq, err = ma.masked_all((n, m)), ma.masked_all((n, m))
    on = above_first(b["droplet"])
    on[rain] = False
    for i in range(n):
        if not on[i].any():
            continue
        lwc, flat = np.zeros(m), np.zeros(m)
        for lo, hi in runs(b["droplet"][i]):
            grad = float(np.asarray(atmoslib.adiabatic_lwc_gradient(f["T"][i, lo:lo + 1], f["P"][i, lo:lo + 1])).ravel()[0])
            lwc[lo:hi + 1] = grad * np.cumsum(dz[lo:hi + 1])
            flat[lo:hi + 1] = grad
        w = on[i]
        for x, key, y in ((lwc, "lwp", liq), (flat, "lwp_error", err)):
            if key in f and there(f[key])[i]:
                p = f[key][i]
                p = max(p, 0) if key == "lwp" else p
                y[i, w] = (2 * np.cumsum(f["liquid_atten"][i] * x * p / np.sum(x * dz) * dz))[w]
    out["liquid"] = {"amount": liq, "error": err, "on": on, "missing": on & ma.getmaskarray(liq)}

    rn, mel = ma.masked_all((n, m)), ma.masked_all((n, m))
    on_r = np.repeat(rain[:, None], m, 1)
    on_m = b["freezing"] & on_r
    if "rate" not in f:
        on_m &= above_first(b["melting"])
        miss_r, miss_m = on_r, on_m
    else:
        known = there(f["rate"])
        rate = f["rate"].filled(0) * 3.6e6
        a, c = (0.97, 0.61) if freq < 60 else (2.9, 0.42)
        for i in np.where(rain & known)[0]:
            k = float(np.asarray(atmoslib.rain_specific_attenuation(np.array([rate[i]]), freq)).ravel()[0])
            if warm[i].any():
                rn[i] = 2e-3 * k * np.minimum(agl, agl[warm[i]].max())
            mel[i, on_m[i]] = a * rate[i] ** c
        miss_r, miss_m = on_r & ~known[:, None], on_m & ~known[:, None]
    out["rain"] = {"amount": rn, "error": 0.2 * rn, "on": on_r, "missing": miss_r}
    out["melting"] = {"amount": mel, "error": (0.2 if freq < 60 else 0.1) * mel, "on": on_m, "missing": miss_m}
    return out


def errors(z, f, site, att, clut):
    """Z_error and Z_sensitivity of the corrected reflectivity."""
    dist = 20 * np.log10(site["range"])
    power = z - dist
    least = np.percentile(power.compressed(), 0.1) if z.count() else 0
    width = f["width"] if "width" in f else ma.array(np.full(z.shape, 0.3), mask=ma.getmaskarray(z))
    dwell = np.median(np.diff(f["time"])) * 3600
    pulses = 4 * np.sqrt(np.pi) * dwell * width / (299792458.0 / (site["freq"] * 1e9))
    e = (10 / np.log(10) / ma.sqrt(pulses) * (1 + 10 ** ((least - power) / 10) / 3)) ** 2
    bad = np.zeros(z.shape, bool)
    for a in att.values():
        e = e + a["error"].filled(0) ** 2
        bad |= a["missing"]
    e = ma.array(ma.sqrt(e), mask=ma.getmaskarray(z) | bad | ma.getmaskarray(e))
    s = least + dist + att["gas"]["amount"].mean(axis=0)
    for j in range(z.shape[1]):
        x = z[:, j][clut[:, j]].compressed()
        if len(x):
            s[j] = np.median(x)
    return e, s
