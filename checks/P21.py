import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime

import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy.exceptions import ValidTimeStampError
from cloudnetpy.instruments import fd12p2nc, rain_e_h32nc, ws2nc
from cloudnetpy.instruments.toa5 import read_toa5
from gen import times

c = Check(
    "P21",
    "Cases are sequences of station readings (values, missing markers, counter resets, sorted/shuffled/repeated/other-day timestamps, split into files) "
    "encoded in the raw format of each supported site or gauge, with malformed lines injected; the oracle is the generated reading converted to SI units "
    "and an incremental reference for accumulated rain.  Non-trivial: at least two distinct times on the date plus a repeated, unsorted, other-day, "
    "missing or malformed record or a counter reset.",
    ["among records with the same timestamp any one may be kept", "a counter reset restarts the gauge from zero",
     "formats that do not tolerate a malformed line may reject the whole file with an exception"],
)
DATES = [datetime.date(2021, 3, 18), datetime.date(2024, 10, 28), datetime.date(2024, 10, 29), datetime.date(2025, 2, 13), datetime.date(2024, 2, 29)]
FLD = ["T", "RH", "P", "WS", "WD", "RR", "RA", "VIS", "SYN", "SN", "X"]


def dt(date, t):
    return datetime.datetime.combine(date, datetime.time()) + datetime.timedelta(seconds=t)


def readings(case):
    """One dict of strings per record; None = missing."""
    r = rng(case["seed"])
    n = len(case["t"])
    out = []
    pmiss = case["pmiss"]
    for _ in range(n):
        d = {"T": f"{r.uniform(-40, 40):.2f}", "RH": f"{r.choice([0, 100, r.uniform(0, 100)]):.1f}", "P": f"{r.uniform(500, 1050):.1f}", "WS": f"{r.choice([0, r.uniform(0, 30)]):.2f}",
             "WD": f"{r.choice([-1.9, -3.0, 0.0, 359.9, 360.0, 361.9, 362.5, r.uniform(0, 360)]):.1f}", "RR": f"{r.choice([0, r.uniform(0, 3)]):.3f}",
             "VIS": str(int(r.integers(0, 50000))), "SYN": str(int(r.integers(0, 100))), "SN": None, "X": f"{r.uniform(-5, 5):.1f}"}
        for k in list(d):
            if r.random() < pmiss:
                d[k] = None
        out.append(d)
    # counters advance in chronological order
    amt, sn = float(f"{r.choice([0, r.uniform(0, 600)]):.3f}"), int(r.integers(0, 400))
    order = np.argsort(np.array(case["t"]), kind="stable")
    for j, i in enumerate(order):
        if j:
            amt = amt + float(f"{r.choice([0, 0, 0.001, r.uniform(0, 5)]):.3f}")
            sn = sn + int(r.choice([0, 0, 1, r.integers(0, 40)]))
            if r.random() < case["reset"]:
                amt = min(amt, float(f"{r.choice([0, r.uniform(0, amt)]):.3f}"))
            if r.random() < case["reset"]:
                sn = int(r.integers(0, sn + 1))
        out[i]["RA"] = None if r.random() < pmiss else f"{amt:.3f}"
        out[i]["SN"] = None if r.random() < pmiss else str(sn)
    return out


def accumulate(x):
    """Reference: total of the increments, a drop means the counter restarted at zero."""
    m = ma.getmaskarray(x)
    out = ma.masked_all(len(x))
    prev, tot = None, 0.0
    for i in range(len(x)):
        if m[i]:
            continue
        v = float(x[i])
        if prev is not None:
            tot += v - prev if v >= prev else v
        prev = v
        out[i] = tot
    return out


def fl(s):
    return np.nan if s is None else float(s)


def wrap(v):
    return v + 360 if -2 < v < 0 else v - 360 if 360 <= v < 362 else v


K2 = lambda v: v + 273.15  # noqa: E731
PCT = lambda v: v / 100  # noqa: E731
HPA = lambda v: v * 100  # noqa: E731
ID = lambda v: v  # noqa: E731
MMMIN = lambda v: v / 60e3  # noqa: E731
MMH = lambda v: v / 3.6e6  # noqa: E731
MM10 = lambda v: v / 600e3  # noqa: E731
BASE = {"air_temperature": ("T", K2), "relative_humidity": ("RH", PCT), "air_pressure": ("P", HPA), "wind_speed": ("WS", ID), "wind_direction": ("WD", wrap)}


def sirta(date, recs, cols, keys, miss, latin, bad, sep="    ", z="Z"):
    head = ["# Date created : 2022-01-02", "# Version : 01", "#"] + [f"# Col. {i + 1} : {x}" for i, x in enumerate(cols)] + ["#", "#   01   02", "#"]
    body = []
    for t, d in recs:
        vals = [miss if d[k] is None else d[k] for k in keys]
        body.append(dt(date, t).strftime(f"%Y-%m-%dT%H:%M:%S{z}") + sep + sep.join(vals))
    orig = list(body)
    for pos, kind in bad:
        if not body:
            break
        p = pos % (len(body) + 1)
        src = orig[pos % len(orig)].split()
        if kind == "short":
            body.insert(p, sep.join(src[:-1]))
        elif kind == "long":
            body.insert(p, sep.join([*src, "5.0"]))
        elif kind == "blank":
            body.insert(p, "   ")
        elif kind == "stub":
            body.insert(p, src[0])
    return ("\n".join(head + body) + "\n").encode("latin-1" if latin else "utf-8")


def csvish(date, recs, names, keys, miss, fmt, sep, bad, perm_seed, time_name, quote=False, extra=True, tail="", pre=(), post=None):
    """Header + rows with shuffled column order (time first)."""
    r = rng(perm_seed)
    cols = list(zip(names, keys))
    if extra:
        cols += [("Extra1", "X"), ("Extra2", "X")]
    cols = [cols[i] for i in r.permutation(len(cols))]
    q = (lambda s: f'"{s}"') if quote else (lambda s: s)
    lines = [*pre, sep.join(q(x) for x in [time_name] + [a for a, _ in cols]) + tail]
    if post:
        lines += post([a for a, _ in cols])
    body = [sep.join([q(fmt(dt(date, t)))] + [miss if d[k] is None else d[k] for _, k in cols]) + tail for t, d in recs]
    orig = list(body)
    for pos, kind in bad:
        if not body:
            break
        p = pos % (len(body) + 1)
        src = orig[pos % len(orig)].split(sep)
        if kind == "short":
            body.insert(p, sep.join(src[:-2]))
        elif kind == "long":
            body.insert(p, sep.join([*src, "5.0"]))
        elif kind == "blank":
            body.insert(p, "")
        elif kind == "stub":
            body.insert(p, "junk")
        elif kind == "baddate":
            body.insert(p, sep.join(["foo", *src[1:]]))
    return "\n".join(lines + body) + "\n"


def toa5(date, recs, m, units, bad, seed, miss):
    names, keys = list(m), list(m.values())
    def post(cols):
        u = [units.get(a, "") for a in cols]
        return [",".join(f'"{x}"' for x in ["TS", *u]), ",".join('""' for _ in ["TS", *u])]
    return csvish(date, recs, names, keys, miss, lambda x: x.strftime("%Y-%m-%d %H:%M:%S"), ",", bad, seed, "TIMESTAMP", quote=False,
                  pre=['"TOA5","X","CR1000X"'], post=post).encode()


# site -> (files encoder, {output: (field, conversion)}, amount mode, multi-file, skippable malformed lines, time unit)
def site_encode(site, date, recs, case, bad):
    s, latin = case["seed"], case["latin"]
    miss = case["missmark"]
    if site in ("Palaiseau", "Bucharest"):
        return sirta(date, recs, ["Date Time (yyyy-mm-ddThh:mm:ssZ)", "Wind speed (m/s)", "Wind direction (degres)", "Air temperature (°C)", "Relative humidity (%)", "Pressure (hPa)",
                                  "Precipitation rate (mm/min)", "24-hr cumulated precipitation since 00UT (mm)"], ["WS", "WD", "T", "RH", "P", "RR", "RA"], "nan", True, bad)
    if site == "Maïdo Observatory":
        return sirta(date, recs, ["Date Time yyyy-mm-ddThh:mm:ssZ", "Wind direction - average (°)", "Wind speed - maximum value (m/s)", "Wind speed - average (m/s)", "Pressure - average (hPa)",
                                  "Relative humidity - maximum value (%)", "Relative humidity - average (%)", "Air temperature - minimum value (°C)", "Air temperature - average (°C)"],
                     ["WD", "X", "WS", "P", "X", "RH", "X", "T"], "nan", True, bad)
    if site == "Potenza":
        # encoded so that the degree sign survives the reader's latin-1 decoding
        return sirta(date, recs, ["Date Time (yyyy-mm-ddThh:mm:ssZ)", "Wind speed Maximum value (m/s)", "Wind speed Average value (m/s)", "Wind direction (degres)", "Air temperature (°C)",
                                  "Relative humidity (%)", "Pressure (hPa)", "Precipitation rate (mm/min)", "24-hr cumulated precipitation (mm)"],
                     ["X", "WS", "WD", "T", "RH", "P", "RR", "RA"], "nan", True, bad)
    if site == "Limassol":
        if case["variant"] % 2:
            cols, keys = ["Air temperature (°C)", "Wind speed (m/s)", "Relative humidity (%)", "Total precipitation (mm)"], ["T", "WS", "RH", "RR"]
        else:
            cols, keys = ["Air temperature (°C)", "Wind speed at 2m (m/s)", "Relative humidity (%)", "Total precipitation (mm)", "Wind speed at 10m (m/s)", "Wind direction at 10m (degrees)"], ["T", "X", "RH", "RR", "WS", "WD"]
        return sirta(date, recs, ["Date Time (yyyy-mm-ddThh:mm:ss)", *cols], keys, miss or "-", latin, bad, sep="\t", z="")
    if site == "Granada":
        return toa5(date, recs, {"air_t_Avg": "T", "rh_Avg": "RH", "pressure_Avg": "P", "wind_speed_avg": "WS", "wind_dir_avg": "WD", "rain_Tot": "RR"},
                    {"air_t_Avg": "degC", "rh_Avg": "%", "pressure_Avg": "hPa", "wind_speed_avg": "m/s", "wind_dir_avg": "Deg", "rain_Tot": "mm"}, bad, s, miss)
    if site == "Jülich":
        return toa5(date, recs, {"AirTC_Avg": "T", "RH": "RH", "BV_BP_Avg": "P", "WS_ms_S_WVT": "WS", "WindDir_D1_WVT": "WD"},
                    {"AirTC_Avg": "Deg C", "RH": "%", "BV_BP_Avg": "hPa", "WS_ms_S_WVT": "meters/Second", "WindDir_D1_WVT": "Deg"}, bad, s, '"NAN"')
    if site == "Falkenberg":
        p = "WS500_"
        return toa5(date, recs, {p + "air_temperature": "T", p + "relative_humidity": "RH", p + "absolute_air_pressure": "P", p + "relative_air_pressure": "X", p + "wind_speed_avg": "WS", p + "wind_speed_max": "X", p + "wind_direction_avg": "WD"},
                    {p + "air_temperature": "degC", p + "relative_humidity": "%", p + "absolute_air_pressure": "hPa", p + "wind_speed_avg": "m s-1", p + "wind_direction_avg": "deg"}, bad, s, miss)
    if site == "Kenttärova":
        return csvish(date, recs, ["Temp 2m (C)", "Humidity 2m (%)", "Pressure (hPa)", "Wind speed (m/s)", "Wind dir (deg)", "Precipitation (?)", "Temp 10m (C)"], ["T", "RH", "P", "WS", "WD", "RR", "X"], miss,
                      lambda x: (x + datetime.timedelta(hours=2)).strftime("%Y-%m-%d %H:%M:%S"), ",", bad, s, "Read time (UTC+2)").encode()
    if site == "Galați":
        v = case["variant"] % 3
        names = [["Temperature", "RH", "Atmospheric_pressure", "Precipitations", "Wind_speed", "Wind_direction", "Visibility"],
                 ["Temperatura", "Umiditate_relativa", "Presiune_atmosferica", "Precipitatii", "Viteza_vant", "Directie_vant", "Vizibilitate"],
                 ["Temperatura", "Umiditate_relativa", "Presiune_atmosferica", "Precipitatii_Tot", "Viteza_vant", "Directie_vant", "Vizibilitate"]][v]
        return csvish(date, recs, names, ["T", "RH", "P", "RR", "WS", "WD", "VIS"], miss, lambda x: x.strftime("%Y-%m-%d %H:%M:%S.%f")[:-3], ",", bad, s, "TimeStamp").encode()
    if site == "Cluj-Napoca":
        names = ["Precipitation_mm", "WS_azimuth_ms", "WD_azimuth_deg", "Air_temperature_C", "rel_humidity_pct", "air_pressure_hPA", "Virtual_temp_C"]
        recs2 = [(t, {**d, "E": d["X"] or "1.0"}) for t, d in recs]
        txt = csvish(date, recs2, names, ["RR", "WS", "WD", "T", "RH", "P", "X"], "nan", lambda x: x.strftime("%d.%m.%y %H:%M:%S.000"), "\t", bad, s, "DateTime", tail="\t")
        return txt.encode()
    if site == "Hyytiälä":
        cols = [("AaRNRT/mm", "X"), ("AaNRT/mm", "RR"), ("BaRT/mm", "RA"), ("Pa/kPa", "P"), ("Ta/dsC", "T"), ("RH/pcnt", "RH"), ("WD/ds", "WD"), ("WS/(m/s)", "WS")]
        cols = [cols[i] for i in rng(s).permutation(len(cols))]
        lines = ["# SMEAR-II, Hyytiälä", "# Precipitation", "# y m d  minute " + " ".join(a for a, _ in cols) + " "]
        for t, d in recs:
            x = dt(date, t)
            lines.append(f"{x.year}  {x.month} {x.day}  {x.hour * 60 + x.minute:3d}  " + "  ".join("-99.99" if d[k] is None else d[k] for _, k in cols))
        for pos, kind in bad:
            if kind == "blank":
                lines.insert(3 + pos % (len(lines) - 2), "")
        return ("\n".join(lines) + "\n").encode()
    if site == "Lampedusa":
        rows = []
        for t, d in recs:
            v = lambda k: miss if d[k] is None else " " + d[k]  # noqa: E731
            z = "\0" if case["variant"] % 2 else ""
            rows.append(z + dt(date, t).strftime("%y%m%d %H%M%S") + ",VALID,ICOS," + ",".join([v("T"), v("RH"), v("X"), v("P"), v("WS"), v("WD"), v("X"), v("X"), v("RR"), v("X"), ""]))
        for pos, kind in bad:
            if not rows:
                break
            p = pos % (len(rows) + 1)
            src = rows[pos % len(rows)]
            rows.insert(p, {"blank": "", "short": ",".join(src.split(",")[:-4]), "long": src + ",7,8", "stub": "junk", "baddate": "x" + src}[kind])
        return ("\n".join(rows) + "\n").encode()
    if site == "L'Aquila":
        rows = ["# Location: L_Aquila", "#", "# DateTime,AirTemperature,Pressure,RelativeHumidity,PrecipitationRate,WindSpeed,WindDirection"]
        body = [dt(date, t).strftime("%Y-%m-%dT%H:%M:%SZ") + "," + ",".join((" " if case["variant"] % 2 else "") if d[k] is None else d[k] for k in ("T", "P", "RH", "RR", "WS", "WD")) for t, d in recs]
        for pos, kind in bad:
            if not body:
                break
            p = pos % (len(body) + 1)
            src = body[pos % len(body)]
            body.insert(p, {"blank": "", "short": ",".join(src.split(",")[:-1]), "long": src + ",7", "stub": "junk", "baddate": "# comment, with, 7, columns, of, text, x"}[kind])
        return ("\n".join(rows + body) + "\n").encode()
    raise HarnessError(site)


ALLSKIP = ("short", "long", "blank", "stub")
SITES = {
    "Palaiseau": dict(out={**BASE, "rainfall_rate": ("RR", MMMIN)}, amount="raw", multi=True, skip=ALLSKIP),
    "Bucharest": dict(out={**BASE, "rainfall_rate": ("RR", MMH)}, amount="raw", multi=True, skip=ALLSKIP),
    "Maïdo Observatory": dict(out=BASE, amount=None, multi=True, skip=ALLSKIP),
    "Potenza": dict(out=BASE, amount=None, multi=True, skip=ALLSKIP),
    "Limassol": dict(out={"air_temperature": ("T", K2), "relative_humidity": ("RH", PCT), "wind_speed": ("WS", ID), "rainfall_rate": ("RR", MM10)}, amount="rate", multi=True, skip=ALLSKIP),
    "Granada": dict(out={**BASE, "rainfall_rate": ("RR", MMMIN)}, amount="rate", multi=False, skip=("blank", "short", "stub", "long")),
    "Jülich": dict(out=BASE, amount=None, multi=False, skip=("blank", "short", "stub", "long")),
    "Falkenberg": dict(out=BASE, amount=None, multi=False, skip=("blank", "short", "stub", "long")),
    "Kenttärova": dict(out={**BASE, "air_pressure": ("P", lambda v: v * 10), "rainfall_rate": ("RR", lambda v: v / 3.6e7)}, amount="rate", multi=True, skip=("blank", "baddate")),
    "Galați": dict(out={**BASE, "air_pressure": ("P", lambda v: v * 133.322), "rainfall_rate": ("RR", MMMIN), "visibility": ("VIS", ID)}, amount="rate", multi=False, skip=("blank",)),
    "Cluj-Napoca": dict(out={**BASE, "rainfall_rate": ("RR", MM10)}, amount="rate", multi=False, skip=()),
    "Hyytiälä": dict(out={**BASE, "air_pressure": ("P", lambda v: v * 1000), "rainfall_rate": ("RR", MMMIN)}, amount="rate", multi=False, skip=("blank",), unit=60),
    "Lampedusa": dict(out={**BASE, "rainfall_rate": ("RR", MMMIN)}, amount="rate", multi=False, skip=("blank",)),
    "L'Aquila": dict(out={**BASE, "rainfall_rate": ("RR", MMMIN)}, amount="rate", multi=True, skip=("short", "long", "blank", "stub", "baddate")),
}


@st.composite
def cases(draw, names, unit=1, bads=("short", "long", "blank", "stub", "baddate")):
    case = {"site": draw(st.sampled_from(names))}
    u = SITES.get(case["site"], {}).get("unit", unit)
    case["t"] = draw(times(steps=(60, 600, 1800) if u == 60 else (1, 60, 61, 600, 1800), unit=u))
    case["seed"] = draw(st.integers(0, 2**31))
    case["pmiss"] = draw(st.sampled_from([0, 0, 0.1, 0.5]))
    case["reset"] = draw(st.sampled_from([0, 0.1, 0.5]))
    case["bad"] = draw(st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 40), st.sampled_from(bads)), min_size=1, max_size=2)))
    case["cuts"] = draw(st.lists(st.integers(0, 20), max_size=2))
    case["date"] = draw(st.integers(0, len(DATES) - 1))
    case["how"] = draw(st.sampled_from(["date", "date", "str", "none"]))
    case["variant"] = draw(st.integers(0, 5))
    case["latin"] = draw(st.booleans())
    case["missmark"] = draw(st.sampled_from(["NAN", "nan", "", "---"]))
    return case


def judge(t, case, path, recs, spec, accum):
    """Compare the file with the records of the date; accum: {output: (field, factor)} or "rate"."""
    date = DATES[case["date"]]
    good = [(s, d) for s, d in recs if 0 <= s < 86400]
    by = {}
    for s, d in good:
        by.setdefault(s, []).append(d)
    ut = sorted(by)
    with netCDF4.Dataset(path) as nc:
        t.eq((nc.year, nc.month, nc.day), (f"{date.year}", f"{date.month:02d}", f"{date.day:02d}"), "date")
        t.same(t.var(nc, "time")[:], np.array(ut) / 3600, "time", rtol=0, atol=3e-6)
        got = {}
        for k in spec:
            v = t.var(nc, k)[:]
            t.eq(v.shape, (len(ut),), f"shape of {k}")
            got[k] = v
        chosen = []
        for i, s in enumerate(ut):
            def matches(d):
                for k, (f, fn) in spec.items():
                    e = fn(fl(d[f]))
                    m = bool(ma.getmaskarray(got[k])[i])
                    if m != (d[f] is None) or (not m and not np.isclose(float(got[k][i]), e, rtol=1e-5, atol=1e-9)):
                        return k, got[k][i], e
                return None
            res = [matches(d) for d in by[s]]
            ok = [d for d, x in zip(by[s], res) if x is None]
            t.ok(ok, lambda: f"sample at {s} s matches none of its {len(by[s])} records: (variable, got, expected) {res}")
            chosen.append(ok)
        for out, (f, fac) in accum.items():
            if any(len({d[f.rstrip('*')] for d in o}) > 1 for o in chosen):
                continue  # several records with this time and equal other fields
            if f == "RR*":
                rate = ma.masked_invalid([spec["rainfall_rate"][1](fl(o[0]["RR"])) for o in chosen])
                step = float(np.median(np.diff(ut))) if len(ut) > 1 else 0
                exp = ma.array(np.cumsum(rate.filled(0) * step), mask=ma.getmaskarray(rate))
                if len(ut) == 1:
                    exp = ma.array([0.0])
            else:
                exp = accumulate(ma.masked_invalid([fl(o[0][f]) for o in chosen])) * fac
            v = t.var(nc, out)[:]
            t.same(v, exp, out, rtol=1e-4, atol=1e-8)
            vv = v.compressed()
            t.ok((np.diff(vv) >= -1e-9).all() and (vv >= -1e-9).all(), f"{out} decreases or is negative: {vv}")
            t.label("accumulated")
            if f != "RR*":
                raw = [fl(o[0][f]) for o in chosen if o[0][f] is not None]
                t.label("resets", (np.diff(raw) < 0).sum() > 0)
                t.label("several resets", (np.diff(raw) < 0).sum() > 1)
    miss = any(d[f] is None for _, d in good for f, _ in spec.values())
    t.mark(len(ut) > 1 and (len(recs) != len(ut) or [s for s, _ in recs] != sorted(s for s, _ in recs) or miss or case["bad"]))


def prepare(case):
    recs = list(zip(case["t"], readings(case)))
    if case["how"] == "none":
        recs = [(s, d) for s, d in recs if 0 <= s < 86400]
    date = DATES[case["date"]]
    arg = {"date": date, "str": date.isoformat(), "none": None}[case["how"]]
    return recs, date, arg


def convert(t, case, fn, files, recs, arg, skippable):
    """Returns the output path, or None if the documented/permitted exception was raised."""
    out = t.path("o.nc")
    site = {"name": case["site"], "altitude": 50, "latitude": 60.2, "longitude": 24.96}
    none_left = not any(0 <= s < 86400 for s, _ in recs)
    tolerated = [k for _, k in case["bad"] if k not in skippable]
    try:
        fn(files if len(files) > 1 or case["variant"] % 2 else files[0], out, site, None, arg)
    except ValidTimeStampError:
        t.ok(none_left or tolerated, "ValidTimeStampError although the date has records")
        t.label("no data")
        t.ok(not os.path.exists(out), "file written in spite of the exception")
        return None
    except Exception:
        if tolerated:
            t.label("malformed file rejected")
            return None
        raise
    t.ok(not none_left, "no exception although no record is from the date")
    return out


def split(case, recs, multi):
    if not multi:
        return [recs]
    cuts = sorted({x % (len(recs) + 1) for x in case["cuts"]})
    parts = [recs[a:b] for a, b in zip([0, *cuts], [*cuts, len(recs)])]
    return [p for p in parts if p] or [recs]


def run_ws(case, t):
    site = case["site"]
    spec = SITES[site]
    recs, date, arg = prepare(case)
    if not recs:
        return
    parts = split(case, recs, spec["multi"])
    files = []
    for i, p in enumerate(parts):
        f = t.path(f"f{i}.dat")
        with open(f, "wb") as fh:
            fh.write(site_encode(site, date, p, case, case["bad"] if i == len(parts) - 1 else []))
        files.append(f)
    out = convert(t, case, ws2nc, files, recs, arg, spec["skip"])
    if out is None:
        return
    fields = dict(spec["out"])
    if site == "Limassol" and not case["variant"] % 2:
        fields["wind_direction"] = ("WD", wrap)
    if site == "Galați" and date < datetime.date(2024, 10, 29):
        fields.pop("wind_speed")
        fields.pop("wind_direction")
        with netCDF4.Dataset(out) as nc:
            t.ok("wind_speed" not in nc.variables and "wind_direction" not in nc.variables, "wind kept although the direction was limited to 0-180 degrees")
    accum = {"raw": {"rainfall_amount": ("RA", 1e-3)}, "rate": {"rainfall_amount": ("RR*", None)}, None: {}}[spec["amount"]]
    t.label(site)
    judge(t, case, out, recs, fields, accum)


c.sub("ws_sirta", cases(["Palaiseau", "Bucharest", "Maïdo Observatory", "Potenza", "Limassol"]), quick=350, shards=2)(run_ws)
c.sub("ws_toa5", cases(["Granada", "Jülich", "Falkenberg"]), quick=350, shards=2)(run_ws)
c.sub("ws_csv", cases(["Kenttärova", "Galați", "Cluj-Napoca", "Lampedusa", "L'Aquila", "Hyytiälä"]), quick=350, shards=2)(run_ws)


@c.sub("rain_e_h3", cases(["16", "22"]), quick=300, shards=1)
def _(case, t):
    recs, date, arg = prepare(case)
    if not recs:
        return
    recs = [(s, {**d, "RR": d["RR"] or "0.0", "RA": d["RA"] or "0.0"}) for s, d in recs]
    old = case["site"] == "16"
    rows = []
    for s, d in recs:
        x = dt(date, s)
        tail = ["0", "5.00", "5.00", "1", "0", "0", "60", "16740", "rain[e]H3", "Lindenberg      ", "MF       ", "ACTRIS   "]
        if old:
            rows.append(";".join([x.strftime("%d.%m.%Y"), x.strftime("%H:%M:%S"), d["RR"], d["RA"], *tail]))
        else:
            y = x + datetime.timedelta(seconds=28)
            rows.append(";".join([x.strftime("%Y-%m-%d %H:%M:%S"), "te:" + y.strftime("%Y.%m.%d"), y.strftime("%H:%M:%S"), d["RR"], d["RA"], *tail, "     ", "850383.0067", "1.20", "1.55", "-0.50*9A"]))
    n = len(rows)
    for pos, kind in case["bad"][: max(0, (n - 1) // 2)]:
        p = pos % (len(rows) + 1)
        src = rows[pos % n]
        rows.insert(p, {"blank": "", "short": ";".join(src.split(";")[:-1]), "long": src + ";7", "stub": "junk", "baddate": "x" + src}[kind])
    if not old:
        rows.insert(0, ";".join(["datetime_utc", "date", "time", "intensity [mm/h]", *["h"] * 18]))
    f = t.path("f.csv")
    with open(f, "w", encoding="latin1") as fh:
        fh.write("\n".join(rows) + "\n")
    case = {**case, "variant": 0}
    out = convert(t, case, rain_e_h32nc, [f], recs, arg, ("blank", "short", "long", "stub", "baddate"))
    if out is None:
        return
    judge(t, case, out, recs, {"rainfall_rate": ("RR", MMH)}, {"rainfall_amount": ("RA", 1e-3)})
    if not old:
        with netCDF4.Dataset(out) as nc:
            t.eq(nc.serial_number, "850383.0067", "serial number")


@c.sub("fd12p", cases(["hm", "hms"], unit=60), quick=300, shards=1)
def _(case, t):
    if case["site"] == "hm":
        case = {**case, "t": [s - s % 60 for s in case["t"]]}
    recs, date, arg = prepare(case)
    if not recs:
        return
    F = ("VIS", "SYN", "RR", "RA", "SN")
    rows = []
    for s, d in recs:
        v = lambda k: "////" if d[k] is None else d[k]  # noqa: E731
        x = dt(date, s).strftime("%d.%m.%Y   %H:%M:%S" if case["site"] == "hms" else "%d.%m.%Y   %H:%M")
        rows.append("   ".join([x, "FD", "100", v("VIS"), "9298", "L", v("SYN"), "52", "40", v("RR"), v("RA"), v("SN")]))
    n = len(rows)
    for pos, kind in case["bad"]:
        p = pos % (len(rows) + 1)
        src = rows[pos % n]
        rows.insert(p, {"blank": "", "short": "   ".join(src.split()[:-1]), "long": src + "   7", "stub": "junk", "baddate": "3" + src}[kind])
    f = t.path("f.dat")
    with open(f, "w") as fh:
        fh.write("\n".join(rows) + "\n")
    kept = [(s, d) for s, d in recs if any(d[k] is not None for k in F)]
    case = {**case, "variant": 0}
    out = convert(t, case, fd12p2nc, [f], kept, arg, ("blank", "short", "long", "stub", "baddate"))
    if out is None:
        return
    judge(t, case, out, kept, {"visibility": ("VIS", ID), "synop_WaWa": ("SYN", ID), "precipitation_rate": ("RR", MMH)},
          {"precipitation_amount": ("RA", 1e-3), "snowfall_amount": ("SN", 1e-3)})


@c.sub("toa5_reader", st.tuples(st.integers(0, 2**31), st.integers(1, 6), st.integers(0, 4), st.integers(1, 4), st.booleans()), quick=150)
def _(case, t):
    """read_toa5 returns every row with its scalar columns and its numbered array columns."""
    seed, n, nscal, narr, quote = case
    r = rng(seed)
    cols = ["RECORD"] + [f"S{i}" for i in range(nscal)] + [f"A({j + 1})" for j in range(narr)] + [f"B({j + 1},1)" for j in range(narr)]
    q = lambda s: f'"{s}"' if quote or ',' in s else s  # noqa: E731
    rows = []
    for i in range(n):
        rows.append([(datetime.datetime(2024, 1, 1) + datetime.timedelta(seconds=int(r.integers(0, 10**6)))), int(r.integers(0, 1000))] + [f"{r.uniform(-9, 9):.2f}" for _ in cols[1:]])
    f = t.path("x.dat")
    with open(f, "w") as fh:
        fh.write('"TOA5","a"\n' + ",".join(q(x) for x in ["TIMESTAMP", *cols]) + "\n" + ",".join(q("u" + x) for x in ["TIMESTAMP", *cols]) + "\n" + ",".join(q("p" + x) for x in ["TIMESTAMP", *cols]) + "\n")
        for row in rows:
            fh.write(",".join([q(row[0].strftime("%Y-%m-%d %H:%M:%S")), str(row[1]), *row[2:]]) + "\n")
    units, proc, data = read_toa5(f)
    t.eq(units, {x: "u" + x for x in ["TIMESTAMP", *cols]}, "units")
    t.eq(proc, {x: "p" + x for x in ["TIMESTAMP", *cols]}, "process")
    exp = []
    for row in rows:
        d = {"TIMESTAMP": row[0], "RECORD": row[1], "A": [], "B": []}
        for k, v in zip(cols[1:], row[2:]):
            if "(" in k:
                d[k[0]].append(v)
            else:
                d[k] = v
        exp.append(d)
    t.eq(data, exp, "rows")
    t.mark(n > 1)


@c.sub("unsupported", st.sampled_from(["Foo", "palaiseau", ""]), quick=3, thorough=3)
def _(case, t):
    try:
        ws2nc(t.path("x"), t.path("o.nc"), {"name": case, "altitude": 1})
    except ValueError:
        return t.mark()
    t.fail("unsupported site accepted")


if __name__ == "__main__":
    c.main()
