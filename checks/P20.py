import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime

import netCDF4
from hypothesis import strategies as st
from numpy import ma

from cloudnetpy.disdronator import lpm, parsivel, rd80
from cloudnetpy.exceptions import DisdrometerDataError, ValidTimeStampError
from cloudnetpy.instruments import parsivel2nc, rd802nc, thies2nc

c = Check(
    "P20",
    "Cases are sequences of instrument readings (all telegram quantities, drop spectra, special values, unsorted/repeated/other-day timestamps) "
    "encoded in every supported text layout with random field order, several files and malformed lines; the oracle is the generated reading "
    "itself converted to SI units.  Non-trivial: at least two distinct times on the date plus a repeated, unsorted, other-day or malformed record.",
    ["each file has at least one well-formed record", "drop counts fit 16 bits", "among records with the same timestamp any one may be kept"],
)
DATE = datetime.date(2021, 3, 18)
SITE = {"name": "Kumpula", "altitude": 50, "latitude": 60.2, "longitude": 24.96}
MMH = 3600 * 1000

# canonical quantity -> (telegram number, kind)
Q = {"rainfall_rate": (1, "f"), "rain_accum": (2, "f"), "synop_WaWa": (3, "i"), "synop_WW": (4, "i"), "metar": (5, "s"), "nws": (6, "s"),
     "radar_reflectivity": (7, "f"), "visibility": (8, "i"), "interval": (9, "i"), "sig_laser": (10, "i"), "n_particles": (11, "i"),
     "T_sensor": (12, "i"), "sensor_id": (13, "s"), "iop": (14, "s"), "dsp": (15, "s"), "I_heating": (16, "f"), "V_power_supply": (17, "f"), "state_sensor": (18, "i"),
     "station": (22, "s"), "station_no": (23, "s"), "rain_abs": (24, "f"), "error_code": (25, "i"), "T_pcb": (26, "i"), "T_right": (27, "i"), "T_left": (28, "i"),
     "kinetic_energy": (34, "f"), "snowfall_rate": (35, "f"), "number_concentration": (90, "v"), "fall_velocity": (91, "v"), "spectrum": (93, "m")}
OUT = ["rainfall_rate", "synop_WaWa", "synop_WW", "radar_reflectivity", "visibility", "interval", "sig_laser", "n_particles", "T_sensor",
       "I_heating", "V_power_supply", "state_sensor", "error_code", "kinetic_energy", "snowfall_rate", "number_concentration", "fall_velocity", "spectrum"]


@st.composite
def times(draw, max_n=8, counts=(1, 2, 3, 5, 8, 20, 22, 32)):
    """Seconds relative to the start of the date, per record."""
    n = draw(st.sampled_from(counts))
    kind = draw(st.sampled_from(["sorted", "sorted", "shuffled", "dup", "mixed"]))
    step = draw(st.sampled_from([1, 10, 60, 1800]))
    base = draw(st.sampled_from([0, 3600, 86400 - step * n]))
    t = [base + i * step for i in range(n)]
    if kind in ("dup", "mixed"):
        k = draw(st.integers(0, n - 1))
        t[k] = t[draw(st.integers(0, n - 1))]
    if kind in ("mixed",):
        for k in draw(st.lists(st.integers(0, n - 1), max_size=3)):
            t[k] += draw(st.sampled_from([86400, -86400, -1, 86399]))
    if kind in ("shuffled", "dup", "mixed"):
        r = rng(draw(st.integers(0, 2**31)))
        t = [t[i] for i in r.permutation(n)]
    return t


def record(seed):
    r = rng(seed)
    d = {}
    for k, (_, kind) in Q.items():
        if kind == "f":
            d[k] = f"{r.choice([0, 0, r.uniform(0, 300), r.uniform(-10, 10)]):.3f}"
        elif kind == "i":
            d[k] = str(int(r.choice([0, r.integers(0, 100), r.integers(0, 20000)])))
        elif kind == "s":
            d[k] = str(r.choice(["NP", "C", "RL-", "P"]))
        elif kind == "v":
            d[k] = [f"{x:.3f}" for x in np.where(r.random(32) < 0.5, -9.999 if k == "number_concentration" else 0.0, r.uniform(-1, 4, 32))]
        else:
            d[k] = (r.integers(0, 300, 1024) * (r.random(1024) < r.choice([0.0, 0.05, 0.5]))).astype(int).tolist()
    d["T_sensor"] = str(int(r.integers(-30, 40)))
    d["sensor_id"] = "450994"
    return d


@st.composite
def series(draw, **kw):
    t = draw(times(**kw))
    return {"t": t, "seed": draw(st.integers(0, 2**31)), "bad": draw(st.lists(st.tuples(st.integers(0, 40), st.sampled_from(["short", "long", "text", "blank", "junk"])), max_size=3)),
            "cuts": draw(st.lists(st.integers(0, 40), max_size=2)), "crlf": draw(st.booleans()), "date": draw(st.sampled_from([True, True, True, "str", False]))}


def dt(sec):
    return datetime.datetime.combine(DATE, datetime.time()) + datetime.timedelta(seconds=sec)


def split(items, cuts):
    cuts = sorted({min(max(x, 1), len(items)) for x in cuts} - {len(items)}) if len(items) > 1 else []
    out, a = [], 0
    for k in [*cuts, len(items)]:
        out.append(items[a:k])
        a = k
    return [x for x in out if x]


def mangle(line, kind, sep):
    if kind == "short":
        return sep.join(line.split(sep)[:-8] or ["x"])
    if kind == "long":
        return line.rstrip(sep) + sep + "1" + sep + "2"
    if kind == "text":
        p = line.split(sep)
        return sep.join(p[:-10] + ["abc" if "A" not in x else x for x in p[-10:]]) if len(p) > 30 else "abc"
    if kind == "blank":
        return ""
    return "\x02\x03####"


LAYOUTS = ["telegram", "telegram", "asdo", "toa5", "pyatmos", "fmi", "op4a"]
ASDO = {"rainfall_rate": "Intensity of precipitation (mm/h)", "rain_accum": "Precipitation since start (mm)", "radar_reflectivity": "Radar reflectivity (dBz)", "visibility": "MOR Visibility (m)", "sig_laser": "Signal amplitude of Laserband", "n_particles": "Number of detected particles", "T_sensor": "Temperature in sensor (°C)", "I_heating": "Heating current (A)", "V_power_supply": "Sensor voltage (V)", "kinetic_energy": "Kinetic Energy", "snowfall_rate": "Snow intensity (mm/h)", "synop_WaWa": "Weather code SYNOP WaWa", "metar": "Weather code METAR/SPECI", "nws": "Weather code NWS", "state_sensor": "Optics status", "spectrum": "Spectrum"}
TOA5 = {"rainfall_rate": ["rainIntensity", "rain_intensity"], "snowfall_rate": ["snowIntensity", "snow_intensity"], "rain_accum": ["accPrec", "precipitation"], "synop_WaWa": ["weatherCodeWaWa", "weather_code_wawa"], "radar_reflectivity": ["radarReflectivity", "radar_reflectivity"], "visibility": ["morVisibility", "mor_visibility"], "kinetic_energy": ["kineticEnergy", "kinetic_energy"], "sig_laser": ["signalAmplitude", "signal_amplitude"], "T_sensor": ["sensorTemperature", "sensor_temperature"], "T_pcb": ["pbcTemperature", "pbc_temperature"], "T_right": ["rightTemperature", "right_temperature"], "T_left": ["leftTemperature", "left_temperature"], "I_heating": ["heatingCurrent", "heating_current"], "V_power_supply": ["sensorVoltage", "sensor_voltage"], "state_sensor": ["sensorStatus", "sensor_status"], "error_code": ["errorCode", "error_code"], "n_particles": ["numberParticles", "number_particles"], "number_concentration": ["N", "N"], "fall_velocity": ["V", "V"], "spectrum": ["spectrum", "spectrum"]}
ATMOS = {"rainfall_rate": "rain rate [mm/h]", "rain_accum": "rain accum [mm]", "synop_WaWa": "wawa", "radar_reflectivity": "Z [dBz]", "visibility": "MOR visibility [m]", "interval": "sample interval [s]", "sig_laser": "Signal amplitude", "n_particles": "Number of detected particles", "T_sensor": "Temperature sensor [°C]", "sensor_id": "Serial number", "iop": "IOP firmware version", "I_heating": "Current heating system [A]", "V_power_supply": "Power supply voltage in the sensor [V]", "state_sensor": "Sensor status", "station": "Station name", "rain_abs": "Rain amount absolute [mm]", "error_code": "Error code", "synop_WW": "wawa [ww]", "metar": "wawa [METAR]", "nws": "wawa [NWS]", "dsp": "DSP firmware version", "station_no": "Station number", "T_pcb": "Temperature PCB [°C]", "T_right": "Temperature right sensor head [°C]", "T_left": "Temperature left sensor head [°C]", "kinetic_energy": "Kinetic energy [J m-2 h-1)]", "snowfall_rate": "Snow depth intensity (vol equiv.) [mm/h]", "number_concentration": "N", "fall_velocity": "v", "spectrum": "M"}


def spec_tokens(rec, style):
    s = rec["spectrum"]
    if style == "slash":
        return ["/".join(map(str, s)) + "/R"]
    if style == "tag":
        if not any(s):
            return ["<SPECTRUM>ZERO</SPECTRUM>"]
        tok = [str(x) if x else "" for x in s]
        tok[0] = "<SPECTRUM>" + tok[0]
        return [*tok, "</SPECTRUM>"]
    return [str(x) for x in s]


def encode(layout, recs, fields, opt, bad):
    """Text of one file and the set of quantities it holds."""
    rows = []
    sep = ";"
    comma = opt["comma"]

    def num(x):
        return x.replace(".", ",") if comma else x

    if layout == "telegram":
        tel = []
        for f in fields:
            tel.append(None if f.startswith("unk") else {"_time": 20, "_date": 21, "_datetime": 19}.get(f) or Q[f][0])
        for sec, rec in recs:
            tok = []
            for f in fields:
                if f == "_time":
                    tok.append(dt(sec).strftime("%H:%M:%S"))
                elif f == "_date":
                    tok.append(dt(sec).strftime(opt["datefmt"]))
                elif f == "_datetime":
                    tok.append(dt(sec).strftime("%Y%m%d%H%M%S"))
                elif f.startswith("unk"):
                    tok.append("zzz")
                elif f == "spectrum":
                    tok += spec_tokens(rec, opt["spec"])
                elif Q[f][1] == "v":
                    tok += [num(x) for x in rec[f]]
                elif Q[f][1] == "f":
                    tok.append(num(rec[f]))
                else:
                    tok.append(rec[f])
            rows.append(";".join(tok) + (";" if opt["tail"] else ""))
        head = []
    elif layout == "asdo":
        tel = None
        use = [f for f in fields if f in ASDO] or ["synop_WaWa"]
        head = [";".join(["Date", "Time"] + [ASDO[f] for f in use])]
        for sec, rec in recs:
            tok = [dt(sec).strftime("%Y/%m/%d"), dt(sec).strftime("%H:%M:%S")]
            for f in use:
                tok += spec_tokens(rec, "tag") if f == "spectrum" else [rec[f].replace(".", ",") if Q[f][1] == "f" else rec[f]]
            rows.append(";".join(tok))
    elif layout == "toa5":
        tel, sep = None, ","
        use = [f for f in fields if f in TOA5]
        i = int(opt["tail"])
        h = ["TIMESTAMP", "RECORD"]
        for f in use:
            n = TOA5[f][i]
            h += [f"{n}({k + 1})" for k in range(1024 if f == "spectrum" else 32)] if Q[f][1] in "vm" else [n]
        if opt["unknown"]:
            h.append("batt_volt")
        head = ['"TOA5","CR1000","x"', ",".join(f'"{x}"' for x in h), ",".join('""' for _ in h), ",".join('"Smp"' for _ in h)]
        for k, (sec, rec) in enumerate(recs):
            tok = [f'"{dt(sec):%Y-%m-%d %H:%M:%S}"', str(k)]
            for f in use:
                tok += [str(x) for x in rec[f]] if Q[f][1] in "vm" else [rec[f]]
            if opt["unknown"]:
                tok.append("12.9")
            rows.append(",".join(tok))
    elif layout == "pyatmos":
        tel = None
        use = [f for f in fields if f in ATMOS]
        if "number_concentration" not in use:
            use.append("number_concentration")
        h = ["datetime_utc"]
        for f in use:
            if f == "spectrum":
                h += [f"M_{a}_{b}" for a in range(32) for b in range(32)]
            elif Q[f][1] == "v":
                h += [f"{ATMOS[f]}{k:02d}" for k in range(32)]
            else:
                h.append(ATMOS[f])
        head = [";".join(h)]
        for sec, rec in recs:
            tok = [f"{dt(sec):%Y-%m-%d %H:%M:%S}"]
            for f in use:
                tok += [str(x) for x in rec[f]] if Q[f][1] in "vm" else [rec[f]]
            rows.append(";".join(tok))
    elif layout in ("fmi", "op4a"):
        tel, head, sep = None, [], "\n"
        use = [f for f in fields if f in Q]
        for sec, rec in recs:
            lines = ["TYP OP4A"]
            for f in use:
                v = rec[f]
                lines.append(f"{Q[f][0]:02d}:" + (";".join(str(x) for x in v) + ";" if Q[f][1] in "vm" else v))
            if opt["unknown"]:
                lines.append("19:12.10.2020_10:00:00")
            if opt["skip16"]:
                lines += ["30:999.9", "33:-9.9", "31:111.1"]
            if layout == "op4a":
                lines += [f"20:{dt(sec):%H:%M:%S}", f"21:{dt(sec):%d.%m.%Y}"]
            body = "\n".join(lines) + "\n"
            rows.append(f"[{dt(sec):%Y-%m-%d %H:%M:%S}\n{body}]" if layout == "fmi" else body)
    if layout == "fmi":
        for pos, kind in bad:
            rec = rows[pos % len(rows)]
            rows.insert(1 + pos % len(rows), {"short": rec[:len(rec) // 2].replace("]", "")[:40], "text": "[2021-03-18 10:00:00\nTYP OP4A\n01:abc\n]", "long": "[2021-03-18 1]"}.get(kind, ""))
        rows = [r for r in rows if not (r.startswith("[") and not r.endswith("]"))]
    elif layout != "op4a":
        for pos, kind in bad:
            if not rows:
                break
            p = pos % (len(rows) + 1)
            if layout == "telegram" and p == 0:
                p = len(rows)
            rows.insert(p, mangle(rows[min(p, len(rows) - 1)] if rows[min(p, len(rows) - 1)].count(sep) > 20 else ";".join("x" * 30), kind, sep))
    return "\n".join(head + rows) + "\n", use if layout != "telegram" else [f for f in fields if f in Q], tel


OPT = st.fixed_dictionaries({"comma": st.booleans(), "tail": st.booleans(), "spec": st.sampled_from(["plain", "slash", "tag"]), "datefmt": st.sampled_from(["%Y/%m/%d", "%d.%m.%Y"]), "unknown": st.booleans(), "skip16": st.booleans()})


def si(name, v):
    if name in ("number_concentration", "fall_velocity"):
        a = np.array([float(x) for x in v])
        if name == "fall_velocity":
            return ma.masked_equal(a, 0.0)
        return ma.array(10 ** a, mask=a == -9.999)
    if name == "spectrum":
        return ma.array(np.reshape(v, (32, 32)).astype(float), mask=False)
    x = float(v)
    if name in ("rainfall_rate", "snowfall_rate"):
        x /= MMH
    if name == "T_sensor":
        x += 273.15
    return ma.array(x)


ATOL = {"rainfall_rate": 1e-12, "snowfall_rate": 1e-12, "number_concentration": 0.51}


def match(t, nc, names, recs, conv, date_secs, rename=lambda n: n):
    """Every output row equals one of the recorded readings with its time."""
    by = {}
    for sec, rec in recs:
        by.setdefault(sec, []).append(rec)
    exp_t = sorted(by)
    time = nc["time"][:]
    t.same(time, np.array([s / 3600 for s in exp_t]), "time", rtol=0, atol=2e-5)
    data = {n: t.var(nc, rename(n))[:] for n in names}
    for i, sec in enumerate(exp_t):
        errs = []
        for rec in by[sec]:
            try:
                for n in names:
                    t.same(data[n][i], conv(n, rec[n]), f"{n} at {sec} s", rtol=2e-6, atol=ATOL.get(n, 1e-6))
                break
            except Violation as e:
                errs.append(e)
        else:
            raise errs[0]


def common(t, nc, uid, ret):
    t.eq(nc.file_uuid, uid, "identifier")
    t.eq(str(ret), uid, "returned identifier")
    t.eq((nc.year, nc.month, nc.day), ("2021", "03", "18"), "date")
    t.eq(nc.location, "Kumpula", "site")
    t.eq(nc.cloudnet_file_type, "disdrometer", "file type")
    for k, v in (("altitude", 50.0), ("latitude", 60.2), ("longitude", 24.96)):
        x = t.var(nc, k)[:]
        t.same(x, np.full(x.shape, v), k)


def bins(t, nc, name, n, spr, start, scale):
    edges = [start]
    for k, s in zip(n, spr):
        for _ in range(k):
            edges.append(edges[-1] + s)
    e = np.array(edges) * scale
    at = 1e-6 * scale
    t.same(t.var(nc, name)[:], (e[1:] + e[:-1]) / 2, name, rtol=1e-5, atol=at)
    t.same(t.var(nc, name + "_spread")[:], np.diff(e), name + "_spread", rtol=1e-5, atol=at)
    t.same(t.var(nc, name + "_bnds")[:], np.stack([e[:-1], e[1:]], axis=1), name + "_bnds", rtol=1e-5, atol=at)


UNITS = {"rainfall_rate": "m s-1", "snowfall_rate": "m s-1", "T_sensor": "K", "visibility": "m", "radar_reflectivity": "dBZ", "number_concentration": "m-3 mm-1", "fall_velocity": "m s-1", "diameter": "m", "velocity": "m s-1", "interval": "s"}


@c.sub("parsivel", st.tuples(st.sampled_from(LAYOUTS), series(), st.permutations(list(Q)), st.integers(0, len(Q)), st.sampled_from(["td", "dt", "datetime", "given"]), OPT), quick=80, shards=8)
def _(case, t):
    layout, s, perm, k, tstyle, opt = case
    fields = list(perm[:max(k, 1)])
    secs = list(s["t"])
    if layout == "op4a" and len(secs) > 6:
        secs = secs[:6]
    if s["date"] is False:
        secs = [x % 86400 for x in secs]
    recs = [(sec, record(s["seed"] + i)) for i, sec in enumerate(secs)]
    telegram, stamps = None, None
    if layout == "telegram":
        r = rng(s["seed"])
        extra = {"td": ["_time", "_date"], "dt": ["_date", "_time"], "datetime": ["_datetime"], "given": []}[tstyle]
        for x in extra + (["unk1", "unk2"] if opt["unknown"] else []):
            fields.insert(int(r.integers(0, len(fields) + 1)), x)
        if tstyle == "given":
            stamps = [dt(sec) for sec in secs]
    groups = split(recs, s["cuts"]) if layout != "op4a" else [[x] for x in recs]
    files = []
    for i, g in enumerate(groups):
        bad = s["bad"] if i == 0 else []
        text, names, tel = encode(layout, g, fields, opt, bad)
        if tel:
            telegram = tel
        p = t.path(f"f{i}.txt")
        with open(p, "w", encoding="utf-8" if layout == "pyatmos" else "latin1", newline="") as f:
            f.write(text.replace("\n", "\r\n") if s["crlf"] else text)
        files.append(p)
    date = {True: DATE, "str": DATE.isoformat(), False: None}[s["date"]]
    uid = "3c6bc4e1-43a1-4f4b-9c14-0123456789ab"
    ok = [(sec, rec) for sec, rec in recs if 0 <= sec < 86400]
    out = t.path("o.nc")
    arg = files if len(files) > 1 or opt["tail"] else files[0]
    kw = {"uuid": uid, "date": date, "telegram": telegram, "timestamps": stamps}
    if len({sec for sec, _ in ok}) < 2:
        try:
            parsivel2nc(arg, out, SITE, **kw)
        except (DisdrometerDataError, ValidTimeStampError):
            t.ok(not os.path.exists(out), "file written although there is not enough data")
            return
        t.fail("no data for the date, but no exception")
    ret = parsivel2nc(arg, out, SITE, **kw)
    with netCDF4.Dataset(out) as nc:
        common(t, nc, uid, ret)
        names = [n for n in names if n in OUT]
        match(t, nc, names, ok, si, secs, lambda n: "data_raw" if n == "spectrum" else n)
        bins(t, nc, "diameter", [10, 5, 5, 5, 5, 2], [0.125, 0.25, 0.5, 1, 2, 3], 0.0, 1e-3)
        bins(t, nc, "velocity", [10, 5, 5, 5, 5, 2], [0.1, 0.2, 0.4, 0.8, 1.6, 3.2], 0.0, 1.0)
        if "spectrum" in names:
            t.eq(nc["data_raw"].dimensions, ("time", "diameter", "velocity"), "dimensions of data_raw")
        for n in names:
            if n in UNITS:
                t.eq(nc[n].units, UNITS[n], f"units of {n}")
        if layout != "asdo" and layout != "toa5" and "sensor_id" in fields:
            t.eq(nc.serial_number, "450994", "serial number")
    t.mark(len(ok) < len(recs) or len({a for a, _ in ok}) < len(ok) or secs != sorted(secs) or (s["bad"] and layout != "op4a"), layout)


# ---------------------------------------------------------------- Thies
THIES_F = {8: "_", 12: "rainfall_rate_1min_total", 13: "rainfall_rate", 14: "rainfall_rate_1min_solid", 15: "_", 17: "radar_reflectivity", 19: "maximum_hail_diameter", 36: "T_interior", 37: "T_laser_driver", 44: "T_ambient"}
THIES_I = {9: "synop_WW", 10: "synop_WaWa", 16: "visibility", 18: "measurement_quality", 20: "status_laser", 21: "static_signal", 22: "status_T_laser_analogue", 23: "status_T_laser_digital", 24: "status_I_laser_analogue", 25: "status_I_laser_digital", 26: "status_sensor_supply", 27: "status_laser_heating", 28: "status_receiver_heating", 29: "status_temperature_sensor", 30: "status_heating_supply", 31: "status_heating_housing", 32: "status_heating_heads", 33: "status_heating_carriers", 34: "status_laser_power", 38: "I_mean_laser", 39: "V_control", 40: "V_optical_output", 41: "V_sensor_supply", 42: "I_heating_laser_head", 43: "I_heating_receiver_head", 49: "n_particles"}
THIES_UNITS = {"T_ambient": "K", "T_interior": "K", "T_laser_driver": "K", "rainfall_rate": "m s-1", "rainfall_rate_1min_total": "m s-1", "rainfall_rate_1min_solid": "m s-1", "visibility": "m", "diameter": "m", "maximum_hail_diameter": "mm", "I_mean_laser": "mA", "V_sensor_supply": "V"}


def thies_record(seed, sec, ntok, year2):
    r = rng(seed)
    d = dt(sec)
    tok, val = [], {}
    for i in range(1, ntok + 1):
        # i: 1-based column; TELEGRAM numbering of the library is 0-based column
        k = i - 1
        if k == 0:
            tok.append("\x0210")
        elif k == 1:
            tok.append("0854")
        elif k == 2:
            tok.append("2.11")
        elif k == 3:
            tok.append(d.strftime("%d.%m.%y" if year2 else "%d.%m.%Y"))
        elif k == 4:
            tok.append(d.strftime("%H:%M:%S"))
        elif k in (7, 11):
            tok.append(str(r.choice(["NP", "RA", "-SN"])))
        elif k in THIES_F:
            v = f"{r.choice([0.0, r.uniform(-20, 400), 999.9]):07.3f}" if k not in (36, 37) else f"{int(r.integers(-30, 50)):+03d}"
            tok.append(v)
            val[THIES_F[k]] = v
        elif k in THIES_I:
            v = str(int(r.choice([0, r.integers(0, 10), r.integers(0, 9999)])))
            tok.append(v)
            val[THIES_I[k]] = v
        else:
            tok.append(str(int(r.integers(0, 50))))
    if ntok >= 519:
        val["spectrum"] = [int(x) for x in tok[79:519]]
    val.pop("_", None)
    return ";".join(tok) + ";", val


def thies_si(n, v):
    if n == "spectrum":
        return ma.array(np.reshape(v, (22, 20)).astype(float), mask=False)
    x = float(v)
    if n.startswith("rainfall"):
        return ma.array(x / MMH, mask=n == "rainfall_rate" and x > 999)
    if n.startswith("T_"):
        x += 273.15
    if n == "V_sensor_supply":
        x /= 10
    if n == "I_mean_laser":
        x /= 100
    return ma.array(x)


THIES_LAY = ["raw", "raw", "toa5", "pyatmos", "truncated"]


def thies_text(layout, lines, secs):
    if layout == "toa5":
        rows = [f'"{dt(s):%Y-%m-%d %H:%M:%S}",{i},"{x}"' for i, (s, x) in enumerate(zip(secs, lines))]
        return "\n".join(['"TOA5","CR1000X","x"', '"TIMESTAMP","RECORD","RawString"', '"TS","RN",""', '"","","Smp"', *rows]) + "\n"
    if layout == "pyatmos":
        rows = [f"{dt(s):%Y-%m-%d %H:%M:%S};{x}" for s, x in zip(secs, lines)]
        return "\n".join(["Datetime [UTC];telegram", *rows]) + "\n"
    return "\n".join(lines) + "\n"


@c.sub("thies", st.tuples(st.sampled_from(THIES_LAY), series(), st.booleans(), st.booleans(), st.sampled_from([30, 52, 80])), quick=60, shards=4)
def _(case, t):
    layout, s, five, year2, ncol = case
    secs = [x % 86400 for x in s["t"]] if s["date"] is False else list(s["t"])
    ntok = (ncol - 1 if layout == "truncated" else 520) + (4 if five else 0)
    # the instrument's own clock is off when the logger provides the time
    off = 40 * 86400 if layout in ("toa5", "pyatmos") else 0
    pairs = [thies_record(s["seed"] + i, sec + off, ntok, year2) for i, sec in enumerate(secs)]
    if layout == "truncated":
        for _, v in pairs:
            for k in [k for k, n in {**THIES_F, **THIES_I}.items() if k >= ncol - 2]:
                v.pop({**THIES_F, **THIES_I}[k], None)
            v.pop("spectrum", None)
    recs = [(sec, v) for sec, (_, v) in zip(secs, pairs)]
    lines, lsecs = [x for x, _ in pairs], list(secs)
    for pos, kind in s["bad"]:
        if kind == "text":
            continue
        p = pos % (len(lines) + 1)
        lines.insert(p, mangle(pairs[p % len(pairs)][0], kind, ";") if kind != "long" else "1;2;3")
        lsecs.insert(p, 7)
    f, out = t.path("t.log"), t.path("o.nc")
    with open(f, "w", newline="") as fh:
        x = thies_text(layout, lines, lsecs)
        fh.write(x.replace("\n", "\r\n") if s["crlf"] else x)
    date = {True: DATE, "str": DATE.isoformat(), False: None}[s["date"]]
    site = dict(SITE)
    if layout == "truncated":
        site["truncate_columns"] = ncol
    uid = "3c6bc4e1-43a1-4f4b-9c14-0123456789ab"
    ok = [(a, b) for a, b in recs if 0 <= a < 86400]
    if not ok:
        try:
            thies2nc(f, out, site, uuid=uid, date=date)
        except (DisdrometerDataError, ValidTimeStampError):
            t.ok(not os.path.exists(out), "file written although there is no data")
            return
        t.fail("no data for the date, but no exception")
    ret = thies2nc(f, out, site, uuid=uid, date=date)
    with netCDF4.Dataset(out) as nc:
        common(t, nc, uid, ret)
        match(t, nc, sorted(ok[0][1]), ok, thies_si, secs, lambda n: "data_raw" if n == "spectrum" else n)
        bins(t, nc, "diameter", [3, 6, 13], [0.125, 0.25, 0.5], 0.125, 1e-3)
        bins(t, nc, "velocity", [5, 6, 7, 1, 1], [0.2, 0.4, 0.8, 1, 10], 0.0, 1.0)
        t.eq(nc.serial_number, "0854", "serial number")
        for k, u in THIES_UNITS.items():
            if k in nc.variables:
                t.eq(nc[k].units, u, f"units of {k}")
    t.mark(len(ok) < len(recs) or len({a for a, _ in ok}) < len(ok) or secs != sorted(secs) or s["bad"], layout)


# ---------------------------------------------------------------- RD-80
RD_D = rd80.Dmid / 1e3


def rd_record(seed):
    r = rng(seed)
    return {"n": r.integers(0, 40, 20) * (r.random(20) < r.choice([0, 0.1, 0.6])), "dt": int(r.choice([10, 30, 60])), "ri": round(float(r.uniform(0, 50)), 3), "ra": round(float(r.uniform(0, 5)), 3), "rat": round(float(r.uniform(0, 99)), 3)}


@c.sub("rd80", st.tuples(series(counts=(1, 2, 3, 8, 20)), st.booleans(), st.permutations(range(27))), quick=80, shards=3)
def _(case, t):
    s, comma, perm = case
    secs = [x % 86400 for x in s["t"]] if s["date"] is False else list(s["t"])
    recs = [(sec, rd_record(s["seed"] + i)) for i, sec in enumerate(secs)]
    cols = ["YYYY-MM-DD", "hh:mm:ss", "Status", "Interval [s]"] + [f"n{i + 1}" for i in range(20)] + ["RI [mm/h]", "RA [mm]", "RAT [mm]"]
    cols = [cols[i] for i in perm]
    files = []
    for gi, g in enumerate(split(recs, s["cuts"])):
        lines = []
        for sec, r in g:
            d = {"YYYY-MM-DD": f"{dt(sec):%Y-%m-%d}", "hh:mm:ss": f"{dt(sec):%H:%M:%S}", "Status": "0", "Interval [s]": str(r["dt"]), "RI [mm/h]": str(r["ri"]), "RA [mm]": str(r["ra"]), "RAT [mm]": str(r["rat"])}
            for i in range(20):
                d[f"n{i + 1}"] = str(int(r["n"][i]))
            for k in ("RI [mm/h]", "RA [mm]", "RAT [mm]"):
                d[k] = d[k].replace(".", ",") if comma else d[k]
            lines.append("\t".join(d[k] for k in cols))
        if gi == 0:
            for pos, kind in s["bad"]:
                if kind != "text":
                    p = pos % (len(lines) + 1)
                    lines.insert(p, mangle(lines[0] if len(lines[0]) > 40 else "a\tb", kind, "\t"))
        p = t.path(f"r{gi}.txt")
        nl = "\r\n" if s["crlf"] else "\n"
        open(p, "w", newline="").write(nl.join(["\t".join(cols), *lines]) + nl)
        files.append(p)
    date = {True: DATE, "str": DATE.isoformat(), False: None}[s["date"]]
    out, uid = t.path("o.nc"), "3c6bc4e1-43a1-4f4b-9c14-0123456789ab"
    ok = [(a, b) for a, b in recs if 0 <= a < 86400]
    # reader
    tm, data = rd80.read_rd80(files[0])
    first = split(recs, s["cuts"])[0]
    t.eq(list(tm), [dt(a) for a, _ in first], "times of the reader")
    t.same(data["n"], np.array([r["n"] for _, r in first]), "drop counts of the reader", rtol=0, atol=0)
    t.same(data["RA [mm]"], np.array([r["ra"] for _, r in first]), "rain amount of the reader", rtol=1e-6)
    arg = files if len(files) > 1 or comma else files[0]
    if not ok:
        try:
            rd802nc(arg, out, SITE, uuid=uid, date=date)
        except (DisdrometerDataError, ValidTimeStampError):
            t.ok(not os.path.exists(out), "file written although there is no data")
            return
        t.fail("no data for the date, but no exception")
    ret = rd802nc(arg, out, SITE, uuid=uid, date=date)

    A, V, dD, D = 0.005, rd80.Vmid, rd80.Dspr, rd80.Dmid

    def conv(n, r):
        if n == "interval":
            return ma.array(float(r["dt"]))
        if n == "rainfall_rate":
            return ma.array(r["ri"] / MMH)
        if n == "n_particles":
            return ma.array(float(r["n"].sum()))
        if n == "number_concentration":
            return ma.array([r["n"][i] / (A * r["dt"] * V[i] * dD[i]) for i in range(20)], mask=False)
        z = sum(r["n"][i] * D[i] ** 6 / V[i] for i in range(20)) / (A * r["dt"])
        if z == 0 or 10 * np.log10(z) < -10:
            return ma.masked_all(())
        return ma.array(10 * np.log10(z))

    names = ["interval", "rainfall_rate", "n_particles", "number_concentration", "radar_reflectivity"]
    with netCDF4.Dataset(out) as nc:
        common(t, nc, uid, ret)
        match(t, nc, names, [(a, {n: r for n in names}) for a, r in ok], conv, secs)
        t.same(nc["diameter"][:], RD_D, "diameter")
        t.same(nc["diameter_spread"][:], rd80.Dspr / 1e3, "diameter_spread")
        b = nc["diameter_bnds"][:]
        t.ok(np.all(b[:, 0] < RD_D) and np.all(RD_D < b[:, 1]) and np.allclose(b[1:, 0], b[:-1, 1]), "diameter bounds enclose the centres")
    t.mark(len(ok) < len(recs) or len({a for a, _ in ok}) < len(ok) or secs != sorted(secs) or s["bad"])


# ---------------------------------------------------------------- plain readers
@c.sub("lpm_reader", st.tuples(st.sampled_from(["raw", "toa5", "pyatmos"]), series(counts=(1, 2, 3, 5)), st.booleans()), quick=50, shards=2)
def _(case, t):
    layout, s, five = case
    ntok = 520 + (4 if five else 0)
    recs = [thies_record(s["seed"] + i, sec, ntok, True) for i, sec in enumerate(s["t"])]
    recs = [(x.lstrip("\x02"), v) for x, v in recs]
    rows = [x for x, _ in recs]
    secs = list(s["t"])
    for pos, kind in s["bad"]:
        p = pos % (len(rows) + 1)
        line = mangle(recs[0][0], kind, ";") if kind not in ("long", "text") else ("1;2" if kind == "long" else ";".join(["x" if 26 > i > 20 else v for i, v in enumerate(recs[0][0].split(";"))]))
        rows.insert(p, line)
        secs.insert(p, 5)
    f = t.path("lpm.txt")
    if layout == "toa5":
        body = [f'"{dt(q):%Y-%m-%d %H:%M:%S}",1,"{x}"' for q, x in zip(secs, rows)]
        text = "\n".join(['"TOA5","x"', "a", "b", "c", *body]) + "\n"
    elif layout == "pyatmos":
        text = "\n".join(["datetime [utc];telegram", *[f"{dt(q):%Y-%m-%d %H:%M:%S};{x}" for q, x in zip(secs, rows)]]) + "\n"
    else:
        text = "\n".join(rows) + "\n"
    open(f, "w").write(text)
    tm, data = lpm.read_lpm(f)
    t.eq([x for x in tm], [dt(q) for q in s["t"]], "times")
    raw = [x.rstrip(";").split(";") for x, _ in recs]
    fills = {18: 99999, 19: -9.9, 46: 99999, 47: 999, 48: 9999, 49: 9999, 50: 9999, 521: 99999, 522: 99999, 523: 9999, 524: 999}
    t.eq(set(data), set(range(2, (524 if five else 520) + 1)), "telegram numbers")
    for no, arr in data.items():
        exp = [r[no - 2] for r in raw]
        t.ok(len(arr) == len(exp), f"number {no} has {len(arr)} values for {len(exp)} records")
        if no in (5, 6, 4, 9, 13):
            continue
        e = np.array([float(x) for x in exp])
        t.same(np.ma.asarray(arr).astype(float), ma.masked_where(e == fills[no], e) if no in fills else e, f"number {no}", rtol=1e-9)
    t.mark(len(s["bad"]) > 0)


P_LAY = ["telegram", "asdo", "toa5", "pyatmos", "fmi", "netcdf"]


@c.sub("parsivel_reader", st.tuples(st.sampled_from(P_LAY), series(counts=(1, 2, 3, 5)), st.permutations(list(Q)), st.integers(1, len(Q)), OPT), quick=60, shards=3)
def _(case, t):
    layout, s, perm, k, opt = case
    fields = list(perm[:k])
    recs = [(sec, record(s["seed"] + i)) for i, sec in enumerate(s["t"])]
    f = t.path("p.txt")
    bad = [] if layout in ("fmi", "netcdf") else [b for b in s["bad"] if b[1] != "long" or layout != "toa5"]
    opt = dict(opt, spec="plain", unknown=False, skip16=False)
    kw = {}
    lost = set()
    if layout == "netcdf":
        names = {"rain_intensity": "rainfall_rate", "code_4680": "synop_WaWa", "reflectivity": "radar_reflectivity", "MOR": "visibility", "amplitude": "sig_laser", "n_particles": "n_particles", "T_sensor": "T_sensor", "fieldN": "number_concentration", "fieldV": "fall_velocity", "data_raw": "spectrum", "kinetic_energy": "kinetic_energy", "snowfall_intensity": "snowfall_rate", "error_code": "error_code", "I_heating": "I_heating", "V_power_supply": "V_power_supply", "absolute_rain_amount": "rain_abs", "state_sensor": "state_sensor", "T_pcb": "T_pcb", "T_L_sensor_head": "T_right", "T_R_sensor_head": "T_left"}
        with netCDF4.Dataset(f, "w") as nc:
            nc.createDimension("time", None); nc.createDimension("d", 32); nc.createDimension("v", 32)
            nc.sensor_serial_number = "450994"
            v = nc.createVariable("time", "f8", ("time",)); v.units = "seconds since 2021-03-18 00:00:00"
            v[:] = [float(x) for x in s["t"]]
            v = nc.createVariable("time_interval", "i4"); v[:] = 60
            for a, b in names.items():
                kd = Q[b][1]
                arr = np.array([[float(x) for x in r[b]] if kd in "vm" else float(r[b]) for _, r in recs])
                v = nc.createVariable(a, "i4" if kd in "im" else "f8", ("time", "d", "v")[: {"v": 2, "m": 3}.get(kd, 1)])
                v[:] = arr.reshape(-1, 32, 32) if kd == "m" else arr
        use = list(names.values())
    else:
        if layout == "toa5":
            recs = [(a, r) for a, r in recs]
        if layout == "telegram":
            fields.insert(k // 2, "_datetime")
        if layout == "fmi":
            bad = []
        text, use, tel = encode(layout, recs, fields, opt, bad)
        if layout == "telegram":
            kw = {"telegram": ["%Y%m%d%H%M%S" if x == 19 else x for x in tel], "field_separator": ";", "decimal_separator": "," if opt["comma"] else "."}
        if layout == "asdo" and "spectrum" in use:
            text = text.replace(";</SPECTRUM>", "</SPECTRUM>")
        if layout == "fmi" and len(recs) > 1:  # a record may lack a quantity
            parts = text.split("TYP OP4A\n")
            for pos, kind in s["bad"]:
                n = use[pos % len(use)]
                k = pos % len(recs)
                if (n, (k + 1) % len(recs)) not in lost and sum(a == n for a, _ in lost) < len(recs) - 1:
                    lost.add((n, k))
                    parts[k + 1] = "".join(x for x in parts[k + 1].splitlines(True) if not x.startswith(f"{Q[n][0]:02d}:"))
            text = "TYP OP4A\n".join(parts)
        with open(f, "w", encoding="utf-8" if opt["unknown"] or layout == "pyatmos" else "latin1", newline="") as fh:
            fh.write(text)
    tm, data = parsivel.read_parsivel(f, **kw)
    t.eq([x.replace(tzinfo=None) for x in tm], [dt(q) for q in s["t"]], "times")
    alias = {"toa5": {"rain_accum": 24}, "netcdf": {"T_right": 27, "T_left": 28}}.get(layout, {})
    for n in use:
        no = alias.get(n, Q[n][0])
        kind = Q[n][1]
        if kind == "s" or (layout == "netcdf" and n in ("T_right", "T_left")):
            continue
        t.ok(no in data, f"telegram number {no} ({n}) missing")
        e = np.array([[float(x) for x in r[n]] if kind in "vm" else float(r[n]) for _, r in recs])
        if kind == "m":
            e = e.reshape(-1, 32, 32)
        e = ma.array(e, mask=np.zeros(e.shape, bool))
        for k in range(len(recs)):
            if (n, k) in lost:
                e[k] = ma.masked
        t.same(data[no].astype(float), e, n, rtol=1e-6, atol=1e-9)
    t.mark(len(bad) + len(lost) > 0 and len(recs) > 1, layout)


NC_LAY = {
    "parsivel2nc": {"interval": "interval", "data_raw": "spectrum", "number_concentration": "number_concentration", "fall_velocity": "fall_velocity", "n_particles": "n_particles", "rainfall_rate": "rainfall_rate", "radar_reflectivity": "radar_reflectivity", "E_kin": "kinetic_energy", "visibility": "visibility", "synop_WaWa": "synop_WaWa", "synop_WW": "synop_WW", "T_sensor": "T_sensor", "sig_laser": "sig_laser", "state_sensor": "state_sensor", "V_sensor": "V_power_supply", "I_heating": "I_heating", "error_code": "error_code"},
    "munich": {"status_sensor": "state_sensor", "sensor_time": None, "error_code": "error_code", "rr": "rainfall_rate", "rain_accum": "rain_accum", "wawa": "synop_WaWa", "Ze": "radar_reflectivity", "n_particles": "n_particles", "snow_intensity": "snowfall_rate", "sample_interval": "interval", "serial_no": "sensor_id", "firmware_IOP": None, "firmware_DSP": None, "curr_heating": "I_heating", "volt_sensor": "V_power_supply", "signal_amplitude": "sig_laser", "T_sensor_housing": "T_sensor", "T_pcb": "T_pcb", "T_sensor_right": "T_right", "T_sensor_left": "T_left", "N": "number_concentration", "v": "fall_velocity", "M": "spectrum"},
    "leipzig": {"Meas_Interval": "interval", "RR_Intensity": "rainfall_rate", "RR_Accumulated": "rain_accum", "RR_Total": "rain_abs", "Synop_WaWa": "synop_WaWa", "Synop_WW": "synop_WW", "Reflectivity": "radar_reflectivity", "Visibility": "visibility", "T_Sensor": "T_sensor", "Sig_Laser": "sig_laser", "N_Particles": "n_particles", "State_Sensor": "state_sensor", "E_kin": "kinetic_energy", "V_Sensor": "V_power_supply", "I_Heating": "I_heating", "Error_Code": "error_code", "Data_N_Field": "number_concentration", "Data_V_Field": "fall_velocity", "Data_Raw": "spectrum"},
}


@c.sub("parsivel_netcdf", st.tuples(st.sampled_from(list(NC_LAY)), series(counts=(1, 2, 3, 5, 32)), st.lists(st.tuples(st.sampled_from(sorted(Q)), st.integers(0, 40)), max_size=4), st.booleans()), quick=40, shards=3)
def _(case, t):
    """NetCDF files of other loggers: every quantity under its telegram number, in telegram units, missing values masked."""
    layout, s, gaps, floats = case
    recs = [record(s["seed"] + i) for i in range(len(s["t"]))]
    f = t.path("p.nc")
    names = NC_LAY[layout]
    exp = {}
    with netCDF4.Dataset(f, "w") as nc:
        nc.createDimension("time", None); nc.createDimension("d", 32); nc.createDimension("v", 32)
        if layout != "munich":
            nc.Sensor_ID = "450994"
        if layout == "leipzig":
            nc.Station_Name, nc.Station_ID = "Leipzig", "123"
        v = nc.createVariable("Meas_Time" if layout == "leipzig" else "time", "f8", ("time",))
        base = 0
        if layout == "leipzig":
            base = (dt(0) - datetime.datetime(1970, 1, 1)).total_seconds()
        else:
            v.units = "seconds since 2021-03-18 00:00:00"
        v[:] = [float(x) + base for x in s["t"]]
        for a, b in names.items():
            if b is None or Q[b][1] == "s":
                v = nc.createVariable(a, "i4", ("time",)); v[:] = 12
                continue
            kd = Q[b][1]
            arr = ma.array([[float(x) for x in r[b]] if kd in "vm" else float(r[b]) for r in recs])
            if kd == "m":
                arr = arr.reshape(-1, 32, 32)
            mask = np.zeros(arr.shape, bool)
            for q, i in gaps:
                if q == b:
                    mask[i % len(recs)] = True
            if b == "T_sensor" and layout == "parsivel2nc":
                mask[0] = False
            exp[b] = ma.array(arr, mask=mask)
            raw = arr.copy()
            if layout == "parsivel2nc" and b == "rainfall_rate":
                raw = raw / 3.6e6
            if layout == "parsivel2nc" and b == "T_sensor":
                raw[0] += 273
            if layout == "munich" and kd == "m":
                raw = raw.transpose(0, 2, 1)
                mask = mask.transpose(0, 2, 1)
            v = nc.createVariable(a, "i4" if kd in "im" and not floats else "f8", ("time", "d", "v")[: {"v": 2, "m": 3}.get(kd, 1)])
            v[:] = ma.array(raw, mask=mask)
    tm, data = parsivel.read_parsivel(f)
    t.eq([x.replace(tzinfo=None) for x in tm], [dt(q) for q in s["t"]], "times")
    for n, e in exp.items():
        no = Q[n][0]
        t.ok(no in data, f"telegram number {no} ({n}) missing")
        t.same(ma.asarray(data[no]).astype(float), e, n, rtol=2e-6, atol=1e-9)
    if layout != "munich":
        t.eq([int(x) for x in data[13]], [450994] * len(recs), "serial number")
    t.mark(len(recs) > 1 and (any(ma.is_masked(x) for x in exp.values()) or len(set(s["t"])) < len(recs)), layout)


c.main()
