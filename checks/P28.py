import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import builtins
import contextlib
import datetime
import gzip
import hashlib
import importlib
import inspect
import io
import json
import logging
import re
import threading
import uuid as uuidlib
from pathlib import Path

import requests
from cloudnet_api_client import APIClient, CloudnetAPIError
from cloudnet_api_client.containers import ExtendedProduct, Instrument, Model, Product, ProductMetadata, RawMetadata, Site
from hypothesis import strategies as st

import cloudnetpy.instruments
import cloudnetpy.model_evaluation
import cloudnetpy.products
from cloudnetpy import cli, concat_lib
from cloudnetpy.exceptions import PlottingError
from cloudnetpy.plotting import generate_figure

c = Check(
    "P28",
    "The command line is run against a generated data portal (sites, instruments, raw and processed files, models, calibrations) and a generated local directory; converters and products are stand-ins that record what they are given (contents of the files, metadata, options) and write an output.  "
    "Non-trivial: at least two processing steps and one choice (several instruments, an existing local file, a missing input).",
    ["the portal's answers are those of the documented client API; downloads keep a local file of the right name and size, as the client does"],
)
SITE, DATE = "munich", "2023-07-29"
PRODUCTS = {  # id -> (types, source instruments, source products)
    "radar": ("instrument", ("mira-35", "rpg-fmcw-35", "rpg-fmcw-94", "basta", "copernicus", "galileo"), ()),
    "lidar": ("instrument", ("chm15k", "cl31", "cl61d", "pollyxt"), ()),
    "doppler-lidar": ("instrument", (), ()),
    "disdrometer": ("instrument", ("parsivel", "thies-lnm"), ()),
    "mwr": ("instrument", ("hatpro",), ()),
    "mwr-l1c": ("instrument", ("hatpro",), ()),
    "weather-station": ("instrument", ("weather-station",), ()),
    "model": ("model", (), ()),
    "categorize": ("geophysical", (), ("radar", "lidar", "model", "mwr", "disdrometer")),
    "classification": ("geophysical", (), ("categorize",)),
    "iwc": ("geophysical", (), ("categorize",)),
    "lwc": ("geophysical", (), ("categorize",)),
    "drizzle": ("geophysical", (), ("categorize",)),
    "der": ("geophysical", (), ("categorize",)),
    "ier": ("geophysical", (), ("categorize",)),
    "mwr-single": ("geophysical", (), ("mwr-l1c",)),
    "mwr-multi": ("geophysical", (), ("mwr-l1c",)),
    "epsilon-radar": ("geophysical", (), ("radar", "model")),
    "l3-cf": ("evaluation", (), ()),
    "l3-iwc": ("evaluation", (), ()),
    "l3-lwc": ("evaluation", (), ()),
}
CAT = ("classification", "iwc", "lwc", "drizzle", "der", "ier")
FUN = {"mira-35": "mira2nc", "rpg-fmcw-35": "rpg2nc", "rpg-fmcw-94": "rpg2nc", "basta": "basta2nc", "copernicus": "copernicus2nc", "galileo": "galileo2nc", "chm15k": "ceilo2nc", "cl31": "ceilo2nc", "cl61d": "ceilo2nc", "pollyxt": "pollyxt2nc", "parsivel": "parsivel2nc", "thies-lnm": "thies2nc", "weather-station": "ws2nc"}
MODELS = [Model("ecmwf", "ECMWF IFS", 1, "ecmwf", None, None), Model("icon-iglo-12-23", "ICON global", 2, "icon", 12, 23), Model("gdas1", "GDAS", 3, "gdas1", None, None)]
VARS = {"radar": ["Zh", "v"], "lidar": ["beta"], "categorize": ["Z", "v", "ldr"], "classification": ["target_classification", "detection_status"]}
NOW = datetime.datetime(2023, 8, 1)


@st.composite
def cli_case(draw):
    S = lambda *x: draw(st.sampled_from(x))  # noqa
    base = draw(st.sampled_from([[], ["radar"], ["categorize"], ["radar", "categorize"], ["categorize", "iwc"], ["lidar", "categorize"], ["mwr-l1c"]]))
    wanted = base + draw(st.lists(st.sampled_from(["radar", "lidar", "disdrometer", "mwr", "mwr-l1c", "weather-station", "categorize", "categorize", "classification", "iwc", "lwc", "drizzle", "der", "ier", "mwr-single", "mwr-multi", "epsilon-radar", "l3-cf", "l3-iwc", "l3-lwc", "bogus"]), min_size=0 if base else 1, max_size=4, unique=True).map(lambda x: [p for p in x if p not in base]))
    if draw(st.booleans()):
        wanted = wanted[::-1]
    return {"products": wanted, "instruments": S(1, 1, 2, 2, 3, 3, 0), "prefs": S("none", "none", "flag", "flag", "bracket"), "pref_kind": S("id", "pid", "list", "list", "repeat", "absent"), "prompt": S("1", "2", "3", "9", "x", ""), "dl": S(*[False] * 7, True), "force": S(False, True), "existing": S("none", "some", "all"), "portal": S("all", "some", "some", "none"),
            "model": S(*[None] * 6, *["ecmwf"] * 4, *["icon-iglo-12-23"] * 4, "icon", "nothing"), "models": S(3, 3, 3, 1, 1, 0), "raw": S("good", "good", "mixed", "mixed", "mixed", "unsuitable"), "nfiles": S(1, 2, 3), "gz": S(False, True), "calibration": S("none", "full", "empty"), "plot": S("no", "no", "plot", "show", "both"), "variables": S(None, "Zh,v"), "max_y": S(None, 5), "plot_fails": S(False, False, True), "options": S(None, '{"temperature_offset": 3}'),
            "where": S("relative", "plain", "odd"), "names": S("plain", "reverse"), "site": S(*[SITE] * 19, "nowhere"), "seed": draw(st.integers(0, 2**31))}


def site(i="munich"):
    return Site(i, {"munich": "Munich", "other": "Elsewhere"}[i], None, 48.148, 11.573, 538, None, None, "Germany", "DE", None, frozenset({"cloudnet"}), None)


class Portal:
    """The data portal: what it holds and answers."""

    def __init__(self, case):
        r = rng(case["seed"])
        self.case = case
        self.raw, self.products, self.text, self.calls = [], [], {}, []
        self.cal = {}
        self.lock = threading.Lock()
        n = 0
        self.devices = {}
        for p, (kind, ids, _) in PRODUCTS.items():
            if not ids or p == "mwr-l1c":
                continue
            here = []
            for k in range(case["instruments"]):
                i = str(r.choice([*ids, 'rpg-fmcw-94', 'rpg-fmcw-35'] if p == 'radar' else ids))
                n += 1
                pid = f"https://hdl.handle.net/21.12132/3.{hashlib.md5(f'{i}{n}{case['seed']}'.encode()).hexdigest()[:16]}"
                label = 90 - n if case["names"] == "reverse" else n
                here.append(Instrument(i, i.upper(), p, f"Device {label:02d} {i}", uuidlib.uuid5(uuidlib.NAMESPACE_URL, pid), pid, ("FMI",), None))
            self.devices[p] = here
        self.devices["mwr-l1c"] = self.devices["mwr"]
        halo = Instrument("halo-doppler-lidar", "HALO", "doppler-lidar", "Halo", uuidlib.uuid5(uuidlib.NAMESPACE_URL, "halo"), "https://hdl.handle.net/21.12132/3.0123456789abcdef", ("FMI",), None)
        self.halo = halo
        serial = 0
        for p, here in self.devices.items():
            if p == "mwr-l1c":
                continue
            for d in here:
                names = []
                one = d.instrument_id == "basta"
                for k in range(1 if one else case["nfiles"]):
                    ext = {"radar": {"mira-35": "mmclx", "basta": "nc", "copernicus": "nc", "galileo": "nc"}.get(d.instrument_id, "LV1"), "mwr": ["LWP.NC", "IWV.NC", "lwp"][k % 3], "lidar": "dat", "disdrometer": "txt", "weather-station": "csv"}[p]
                    names.append(f"raw{k}.{ext}")
                if p == "mwr":
                    names += ["x.BRT", "x.HKD"]
                if case["raw"] != "good":
                    names += {"radar": ["raw9.LV0"], "mwr": ["y.nc"]}.get(p, [])
                if case["raw"] == "unsuitable":
                    names = {"radar": ["raw9.LV0", "raw8.lv0"], "mwr": ["y.nc"]}.get(p, names)
                status = ["uploaded", "processed"]
                for k, name in enumerate(names):
                    if case["gz"] and p in ("disdrometer", "lidar", "weather-station"):
                        name += ".gz"
                    serial += 1
                    self.add_raw(d, name, serial, status[serial % 2])
                if case["raw"] == "mixed":
                    for bad, kw in (("created", {"status": "created"}), ("invalid", {"status": "invalid"}), ("other site", {"where": "other"}), ("other day", {"day": "2023-07-30"})):
                        serial += 1
                        self.add_raw(d, f"{bad.replace(' ', '_')}.{names[0].split('.', 1)[1]}", serial, kw.get("status", "uploaded"), kw.get("where", "munich"), kw.get("day", DATE))
        have = {"all": 1.0, "some": 0.5, "none": 0.0}[case["portal"]]
        for p, (kind, ids, _) in PRODUCTS.items():
            if p == "model":
                for m in MODELS[: case["models"]]:
                    self.add(p, kind, f"20230729_munich_{m.id}.nc", None, m)
            elif ids:
                for d in self.devices[p]:
                    if r.random() < have:
                        self.add(p, kind, f"20230729_munich_{'mwr-l1c_' if p == 'mwr-l1c' else ''}{d.instrument_id}_{d.pid.split('.')[-1][:8]}.nc", d, None)
            elif p == "doppler-lidar":
                if r.random() < have:
                    self.add(p, kind, "20230729_munich_halo-doppler-lidar_01234567.nc", halo, None)
            elif r.random() < have and not p.startswith("l3"):
                self.add(p, kind, f"20230729_munich_{p}.nc", None, None)
        if case["calibration"] != "none":
            for p, here in self.devices.items():
                for d in here:
                    self.cal[d.pid] = {} if case["calibration"] == "empty" else {"range_correction_factor": 1.5, "snr_limit": 7, "calibration_factor": 3.25, "retrieval_coefficients": [{"links": ["https://x.y/z/one.ret", "https://x.y/z/two.ret"]}], "azimuth_offset_deg": 4}
        if "mwr-l1c" in case["products"] or case["calibration"] != "none":
            for d in self.devices["mwr"]:
                self.cal.setdefault(d.pid, {}).setdefault("retrieval_coefficients", [{"links": ["https://x.y/z/one.ret"]}])

    def add_raw(self, d, name, serial, status, where="munich", day=DATE):
        text = f"RAW:{d.pid}:{where}:{day}:{status}:{name}\n".encode()
        body = gzip.compress(text, mtime=0) if name.endswith(".gz") else text
        m = RawMetadata(uuidlib.uuid5(uuidlib.NAMESPACE_URL, f"raw{serial}"), hashlib.md5(body).hexdigest(), len(body), name, f"https://portal/api/download/raw/{serial}/{name}", datetime.date.fromisoformat(day), NOW, NOW, site(where), status, d, frozenset())
        self.raw.append(m)
        self.text[m.uuid] = body

    def add(self, p, kind, name, d, model):
        for where, day in ((SITE, DATE), ("other", DATE), (SITE, "2023-07-28")):
            body = f"PORTAL:{p}:{where}:{day}:{name}".encode()
            u = uuidlib.uuid5(uuidlib.NAMESPACE_URL, f"{p}{where}{day}{name}")
            self.products.append(ProductMetadata(u, hashlib.sha256(body).hexdigest(), len(body), name, f"https://portal/api/download/product/{u}/{name}", datetime.date.fromisoformat(day), NOW, NOW, site(where), Product(p, p, frozenset({kind}), False), d, model, False, False, "", None, None, 100.0, "scheduled", "HDF5", None, None, None))
            self.text[u] = body

    # answers
    def _in(self, value, allowed):
        if allowed is None:
            return True
        return value in ([allowed] if isinstance(allowed, str) else list(allowed))

    def sites_(self, type=None):
        return [site(), site("other")]

    def products_(self, type=None):
        return [Product(p, p, frozenset({k}), False) for p, (k, _, _) in PRODUCTS.items()]

    def product_(self, product_id):
        k, ids, src = PRODUCTS[product_id]
        return ExtendedProduct(product_id, product_id, frozenset({k}), False, frozenset(ids), frozenset(src), frozenset(p for p, x in PRODUCTS.items() if product_id in x[2]))

    def models_(self):
        return list(MODELS)

    def files_(self, site_id=None, date=None, instrument_id=None, instrument_pid=None, model_id=None, product_id=None, **kw):
        out = []
        for m in self.products:
            if not (self._in(m.product.id, product_id) and self._in(m.site.id, site_id) and (date is None or str(date) == m.measurement_date.isoformat())):
                continue
            if model_id is not None and (m.model is None or not self._in(m.model.id, model_id)):
                continue
            if (instrument_id is not None or instrument_pid is not None) and (m.instrument is None or not (self._in(m.instrument.instrument_id, instrument_id) and self._in(m.instrument.pid, instrument_pid))):
                continue
            out.append(m)
        if model_id is None and product_id == "model":
            out = out[:1]  # the portal gives the best model
        return out

    def raw_files_(self, site_id=None, date=None, instrument_id=None, instrument_pid=None, status=None, **kw):
        return [m for m in self.raw if self._in(m.site.id, site_id) and (date is None or str(date) == m.measurement_date.isoformat()) and self._in(m.instrument.instrument_id, instrument_id) and self._in(m.instrument.pid, instrument_pid) and self._in(m.status, status)]

    def calibration_(self, instrument_pid, date):
        if instrument_pid not in self.cal:
            raise CloudnetAPIError("no calibration")
        if str(date) != DATE:
            return {"data": {"snr_limit": -1}}
        return {"data": json.loads(json.dumps(self.cal[instrument_pid]))}

    def download_(self, metadata, output_directory=".", *a, **kw):
        metas = [metadata] if not isinstance(metadata, (list, tuple)) else metadata
        out = []
        for m in metas:
            dst = Path(output_directory) / m.download_url.split("/")[-1]
            out.append(dst)
            with self.lock:
                if not (dst.exists() and dst.stat().st_size == m.size):
                    dst.parent.mkdir(parents=True, exist_ok=True)
                    dst.write_bytes(self.text[m.uuid])
        return out


@contextlib.contextmanager
def stand_ins(originals):
    """Replaces the functions wherever cloudnetpy refers to them."""
    undo = []
    mods = [m for n, m in list(sys.modules.items()) if (n == "cloudnetpy" or n.startswith("cloudnetpy.")) and m is not None]
    try:
        for old, new in originals:
            for m in mods:
                for k, v in list(vars(m).items()):
                    if v is old:
                        undo.append((m, k, old))
                        setattr(m, k, new)
        yield
    finally:
        for m, k, old in undo:
            setattr(m, k, old)


def content(x):
    if isinstance(x, (list, tuple)):
        return [content(i) for i in x]
    p = Path(x)
    if p.is_dir():
        return {q.name: q.read_text(errors="replace") for q in sorted(p.iterdir())}
    return p.read_text(errors="replace")


RESAMPLING = importlib.import_module("cloudnetpy.model_evaluation.products.product_resampling")
L3PLOT = importlib.import_module("cloudnetpy.model_evaluation.plotting.plotting")


def execute(case, t, portal, argv, cwd):
    log, figures = [], []

    def record(name, real, keys, out, write=True):
        sig = inspect.signature(real)

        def stub(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            e = {"fn": name, "args": dict(b.arguments), "in": {q: (content(b.arguments[q]) if b.arguments[q] is not None else None) for q in keys}, "out": Path(b.arguments[out]).resolve()}
            if b.arguments.get("overwrite") is False and Path(b.arguments[out]).exists():
                raise FileExistsError(b.arguments[out])
            log.append(e)
            Path(b.arguments[out]).write_text(f"MADE:{name}:{len(log)}")
            return uuidlib.uuid4()

        return real, stub

    pairs = []
    for name in sorted(set(FUN.values()) | {"hatpro2nc", "hatpro2l1c", "mrr2nc", "radiometrics2nc"}):
        real = getattr(cloudnetpy.instruments, name)
        pairs.append(record(name, real, [list(inspect.signature(real).parameters)[0]], "output_file"))
    for p in CAT:
        real = getattr(cloudnetpy.products, f"generate_{p}")
        pairs.append(record(f"generate_{p}", real, [list(inspect.signature(real).parameters)[0]], list(inspect.signature(real).parameters)[1]))
    for p in ("mwr_single", "mwr_multi"):
        real = getattr(cloudnetpy.products, f"generate_{p}")
        pairs.append(record(f"generate_{p}", real, [list(inspect.signature(real).parameters)[0]], list(inspect.signature(real).parameters)[1]))
    real = cloudnetpy.products.generate_epsilon_from_radar
    q = list(inspect.signature(real).parameters)
    pairs.append(record("generate_epsilon_from_radar", real, q[:2], q[2]))
    pairs.append(record("process_L3_day_product", RESAMPLING.process_L3_day_product, ["model_file", "product_file"], "output_file"))
    real_cat = cli.generate_categorize
    cat_sig = inspect.signature(real_cat)

    def cat_stub(*a, **k):
        b = cat_sig.bind(*a, **k)
        b.apply_defaults()
        files = dict(b.arguments["input_files"])
        log.append({"fn": "generate_categorize", "args": dict(b.arguments), "in": {n: (None if f is None else content(f)) for n, f in files.items()}, "out": Path(b.arguments["output_file"]).resolve()})
        Path(b.arguments["output_file"]).write_text(f"MADE:generate_categorize:{len(log)}")
        return uuidlib.uuid4()

    pairs.append((real_cat, cat_stub))
    fig_sig = inspect.signature(generate_figure)

    def fig_stub(*a, **k):
        b = fig_sig.bind(*a, **k)
        b.apply_defaults()
        figures.append({"kind": "figure", **b.arguments, "text": content(b.arguments["filename"])})
        if case["plot_fails"]:
            raise PlottingError("nothing to plot")

    pairs.append((generate_figure, fig_stub))
    l3_sig = inspect.signature(L3PLOT.generate_L3_day_plots)

    def l3_stub(*a, **k):
        b = l3_sig.bind(*a, **k)
        b.apply_defaults()
        figures.append({"kind": "l3", **b.arguments, "text": content(b.arguments["nc_file"])})
        if case["plot_fails"]:
            raise PlottingError("nothing to plot")
        return []

    pairs.append((L3PLOT.generate_L3_day_plots, l3_stub))
    bundle_sig = inspect.signature(concat_lib.bundle_netcdf_files)

    def bundle_stub(*a, **k):
        b = bundle_sig.bind(*a, **k)
        b.apply_defaults()
        Path(b.arguments["output_file"]).write_text("".join(content(list(b.arguments["files"]))) + f"BUNDLED {b.arguments['date']}")
        return list(b.arguments["files"])

    pairs.append((concat_lib.bundle_netcdf_files, bundle_stub))

    class Answer:
        status_code, ok = 200, True

        def __init__(self, body):
            self.content = body
            self.text = body.decode()

        def json(self):
            return json.loads(self.content)

        def raise_for_status(self):
            pass

    def get(url, *a, **k):
        if str(url).rstrip("/").endswith("products/variables"):
            return Answer(json.dumps([{"id": p, "variables": [{"id": f"{p}-{v}"} for v in VARS.get(p, ["alpha", "beta_1"])]} for p in PRODUCTS]).encode())
        return Answer(f"COEFFICIENTS {url}".encode())

    saved = {n: getattr(APIClient, n) for n in ("sites", "products", "product", "models", "files", "raw_files", "calibration", "download")}
    old = (requests.get, builtins.input, sys.argv, os.getcwd(), logging.getLogger().handlers[:], logging.getLogger().level)
    said = io.StringIO()
    error = None
    prompts = []

    def ask(text=""):
        prompts.append(text)
        if case["prompt"] == "":
            raise EOFError
        return case["prompt"]

    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        for n in saved:
            setattr(APIClient, n, (lambda f: lambda self, *a, **k: f(*a, **k))(getattr(portal, n + "_")))
        requests.get, builtins.input, sys.argv = get, ask, ["cloudnetpy", *argv]
        os.chdir(cwd)
        with stand_ins(pairs), contextlib.redirect_stderr(said), contextlib.redirect_stdout(said):
            try:
                cli.main()
            except SystemExit as e:
                error = e
    finally:
        for n, f in saved.items():
            setattr(APIClient, n, f)
        requests.get, builtins.input, sys.argv = old[:3]
        os.chdir(old[3])
        logging.getLogger().handlers[:] = old[4]
        logging.getLogger().setLevel(old[5])
        logging.disable(off)
    return log, figures, error, said.getvalue(), prompts


@c.sub("runs", cli_case(), quick=600, thorough=8000, shards=8)
def _(case, t):
    r = rng(case["seed"] + 3)
    portal = Portal(case)
    cwd = Path(t.dir).resolve()
    if case["where"] == "relative":
        out, inp = cwd / "output", cwd / "input"
        argv = []
    else:
        base = cwd / ("plain" if case["where"] == "plain" else "a categorize.nc run")
        out, inp = base / "results", base / "raw data"
        argv = ["--output", str(out), "--input", str(inp)]
    prefs, names = {}, []
    for p in case["products"]:
        ids = PRODUCTS[p][1] if p in PRODUCTS else ()
        name = p
        if ids and case["prefs"] != "none":
            here = portal.devices[p]
            order = [here[i] for i in r.permutation(len(here))]
            others = [i for i in ids if i not in {d.instrument_id for d in here}]
            if case["prefs"] == "bracket":
                name = f"{p}[{order[0].instrument_id if order and case['pref_kind'] != 'absent' else ids[0]}]"
                prefs[p] = ("bracket", [name.split("[")[1][:-1]])
            elif case["pref_kind"] == "absent" or not order:
                prefs[p] = ("flag", (others or ["no-such-device"])[:1])
            else:
                vals = [d.pid if r.random() < 0.5 else d.instrument_id for d in order]
                vals = {"id": [order[0].instrument_id], "pid": [order[0].pid]}.get(case["pref_kind"], vals)
                if case["pref_kind"] in ("list", "repeat") and others and r.random() < 0.5:
                    vals = [others[0], *vals]
                prefs[p] = ("flag", vals)
        names.append(name)
    if "categorize" in case["products"] and case["prefs"] == "flag":
        for p in ("radar", "lidar"):
            if p not in prefs and r.random() < 0.7:
                here = portal.devices[p] + ([portal.halo] if p == "lidar" else [])
                vals = [(d.pid if r.random() < 0.5 else d.instrument_id) for d in (here[i] for i in r.permutation(len(here)))]
                if case["pref_kind"] in ("id", "pid"):
                    vals = vals[:1]
                if vals:
                    prefs[p] = ("flag", vals)
    argv += ["-s", case["site"], "-d", DATE, "-p", ",".join(names)]
    for p, (kind, vals) in prefs.items():
        if kind == "flag":
            if case["pref_kind"] == "repeat":
                for v in vals:
                    argv += ["-i", f"{p}:{v}"]
            else:
                argv += ["-i", f"{p}:{','.join(vals)}"]
    for flag, on in (("--dl", case["dl"]), ("--force-download", case["force"]), ("--plot", case["plot"] in ("plot", "both")), ("--show", case["plot"] in ("show", "both"))):
        if on:
            argv.append(flag)
    for flag, v in (("-m", case["model"]), ("-v", case["variables"]), ("--max-y", case["max_y"]), ("-o", case["options"])):
        if v is not None:
            argv += [flag, str(v)]
    argv = [argv[i] for i in range(len(argv))]
    # what is in the local directories already
    day_out, day_in = out / SITE / DATE, inp / SITE / DATE
    existing = {}
    share = {"none": 0, "some": 0.5, "all": 1}[case["existing"]]
    for m in portal.products:
        if m.site.id == SITE and m.measurement_date.isoformat() == DATE and r.random() < share:
            p = day_out / ("geophysical" if "geophysical" in m.product.type else "instrument") / m.filename
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(portal.text[m.uuid].replace(b"PORTAL", b"OLDOLD"))
            existing[p] = True
    if share:
        for p in ("l3-cf", "l3-iwc", "l3-lwc"):  # results of an earlier run
            for m in MODELS:
                q = day_out / "evaluation" / f"20230729_munich_{m.id}_{p}.nc"
                q.parent.mkdir(parents=True, exist_ok=True)
                q.write_text("EARLIER")
    stale = set()
    for m in portal.raw:
        if m.site.id == SITE and m.measurement_date.isoformat() == DATE and m.status in ("uploaded", "processed") and not m.filename.endswith(".gz") and r.random() < share:
            p = day_in / f"{m.instrument.instrument_id}_{m.instrument.pid.split('.')[-1][:8]}" / m.filename
            # only files that are fetched again: others are leftovers in the directory
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(portal.text[m.uuid].replace(b"RAW", b"OLD"))
            stale.add(m.uuid)
    log, figures, error, said, prompts = execute(case, t, portal, argv, cwd)
    if case["site"] != SITE or case["model"] in ("icon", "nothing"):
        t.ok(error is not None and error.code == 2, "unknown site or model accepted")
        t.eq(len(log), 0, "steps with an unknown site or model")
        t.label("rejected")
        return
    t.ok(error is None, f"exit {error!r}: {said[-300:]}")
    want = [p for p in case["products"] if p in PRODUCTS]
    by_out = {}
    for e in log:
        t.ok(e["out"] not in by_out, f"{e['out'].name} is written twice")
        by_out[e["out"]] = e
    if case["dl"]:
        t.eq([e["fn"] for e in log], [], "steps although only the raw data were to be downloaded")
        t.eq(figures, [], "figures")
        t.label("download only")
        want_raw = True
    # --- instruments
    made = {}
    choices = 0
    left = list(log)
    for p in [q for q in want if PRODUCTS[q][1]]:
        ids = PRODUCTS[p][1]
        here = [d for d in portal.devices[p] if d.instrument_id in ids]
        usable = lambda d: [m for m in portal.raw_files_(site_id=SITE, date=DATE, instrument_pid=d.pid, status=["uploaded", "processed"])]  # noqa
        here = [d for d in here if usable(d)]
        kind, vals = prefs.get(p, (None, []))
        match = lambda d, v: d.pid == v or d.instrument_id == v  # noqa
        loose = False
        if kind == "bracket":
            cand = [d for d in here if d.instrument_id == vals[0]]
        elif kind == "flag":
            first = next((v for v in vals if any(match(d, v) for d in here)), None)
            loose = first is None  # nothing of the preferred kind: another one may be taken
            cand = [d for d in here if match(d, first)] if first else here
        else:
            cand = here
        fn = [e for e in left if (e["fn"] == ("hatpro2l1c" if p == "mwr-l1c" else "hatpro2nc" if p == "mwr" else None) or (p not in ("mwr", "mwr-l1c") and e["fn"] in {FUN[i] for i in ids}))]
        t.ok(len(fn) <= 1, f"{len(fn)} conversions for {p}")
        if case["dl"]:
            continue
        suits = lambda d: [m for m in usable(d) if (p != "radar" or not m.filename.lower().endswith(".lv0")) and (p != "mwr" or re.search(r"\.(lwp|iwv)", m.filename, re.I)) and (p != "mwr-l1c" or not m.filename.lower().endswith(".nc"))]  # noqa
        unique = cand[:1] if len(cand) == 1 else []
        if kind == "flag" and not loose and cand:
            # the same kind of device twice: either of them
            unique = cand
        if not cand and not loose:
            t.eq(len(fn), 0, f"conversions for {p} without raw data")
            continue
        if not unique and not loose:
            choices += 1
            shown = re.findall(r"(\d+): (.*) \((https?://[^)]*)\)", said)
            shown = [(k, pid) for k, _, pid in shown if pid in {d.pid for d in cand}][: len(cand)]
            t.eq({pid for _, pid in shown}, {d.pid for d in cand}, f"instruments offered for {p}")
            t.ok(prompts, "no question although there are several instruments")
            pick = [pid for k, pid in shown if k == case["prompt"]]
            unique = [d for d in cand if d.pid in pick]
            if not unique:
                t.eq(len(fn), 0, f"conversions for {p} after an invalid answer")
                t.label("invalid answer")
                continue
        if loose:
            if not fn:
                continue
            unique = here
        good = [d for d in unique if suits(d)]
        if len(unique) == 1 and not good:
            t.eq(len(fn), 0, f"conversions for {p} without suitable files")
            t.label("unsuitable files")
            continue
        if not fn:
            t.ok(len(good) < len(unique), f"{p} was not converted although {[d.instrument_id for d in unique]} is there: {said[-300:]}")
            continue
        e = fn[0]
        left.remove(e)
        made[p] = e
        data = list(e["in"].values())[0]
        found = set(re.findall(r"(?:RAW|OLD):(https?://[^:]*):", json.dumps(data)))
        t.eq(len(found), 1, f"instruments in the files for {p}")
        dev = next((d for d in good if d.pid in found), None)
        t.ok(dev is not None, f"{p} was made of {found}, not of {[d.pid for d in good]}")
        if p not in ("mwr", "mwr-l1c"):
            t.eq(e["fn"], FUN[dev.instrument_id], f"converter of {dev.instrument_id}")
        lines = []
        for m in suits(dev):
            body = portal.text[m.uuid]
            text = (gzip.decompress(body) if m.filename.endswith(".gz") else body).decode()
            if m.uuid in stale and not case["force"]:
                text = text.replace("RAW", "OLD")
            lines.append((m.filename.removesuffix(".gz"), text))
        if isinstance(data, dict):
            for k, v in lines:
                t.eq(data.get(k), v, f"{k} for {p}")
            t.label("folder")
        elif isinstance(data, list):
            t.eq(sorted(data), sorted(v for _, v in lines), f"raw files for {p}")
        elif e["fn"] == "ceilo2nc" and dev.instrument_id == "cl61d":
            t.eq(data, "".join(v for _, v in lines) + f"BUNDLED {DATE}", f"raw files for {p}")
        else:
            t.eq(data, "".join(v for _, v in lines), f"raw files for {p}")
        a = e["args"]
        t.eq(str(a["date"]), DATE, f"date of {p}")
        meta = a["site_meta"]
        t.eq([meta[k] for k in ("name", "latitude", "longitude", "altitude")], ["Munich", 48.148, 11.573, 538], f"site of {p}")
        cal = portal.cal.get(dev.pid, {})
        if e["fn"] == "mira2nc":
            t.eq(meta.get("range_correction_factor"), cal.get("range_correction_factor"), "range correction")
        if e["fn"] == "pollyxt2nc":
            t.eq(meta.get("snr_limit"), cal.get("snr_limit", 25), "SNR limit")
        if e["fn"] == "ceilo2nc":
            t.eq(meta.get("model"), dev.instrument_id, "model of the ceilometer")
            if dev.instrument_id != "cl61d":
                t.eq(meta.get("calibration_factor"), cal.get("calibration_factor"), "calibration factor")
        if e["fn"] == "hatpro2l1c":
            t.eq(meta.get("coefficientLinks"), cal["retrieval_coefficients"][0]["links"], "links of coefficients")
            t.eq([os.path.basename(f) for f in meta["coefficientFiles"]], [os.path.basename(f) for f in meta["coefficientLinks"]], "files of coefficients")
            t.eq(meta.get("azimuth_offset_deg"), cal.get("azimuth_offset_deg"), "calibration of the radiometer")
        t.eq(e["out"].parent, day_out / "instrument", f"folder of {p}")
        t.ok(e["out"].name.startswith(f"20230729_munich_{dev.instrument_id}{'_' if p != 'mwr-l1c' else ''}") and e["out"].suffix == ".nc", f"name {e['out'].name}")
        t.label(dev.instrument_id)
    if case["dl"]:
        return

    def text_of(e):
        return f"MADE:{e['fn']}:{log.index(e) + 1}"

    def portal_text(m):
        p = day_out / ("geophysical" if "geophysical" in m.product.type else "instrument") / m.filename
        if p in by_out:
            return text_of(by_out[p])
        b = portal.text[m.uuid].decode()
        return b.replace("PORTAL", "OLDOLD") if p in existing and not case["force"] else b

    def offered(product, like=None):
        ms = portal.files_(site_id=SITE, date=DATE, product_id=product)
        return [m for m in ms if like is None or (m.instrument is not None and like in (m.instrument.pid, m.instrument.instrument_id))]

    model_id = case["model"]

    def model_text(i):
        ms = portal.files_(site_id=SITE, date=DATE, product_id="model", model_id=i)
        return portal_text(ms[0]) if ms else None

    # --- categorize
    fresh = None
    if "categorize" in want:
        fn = [e for e in left if e["fn"] == "generate_categorize"]
        if model_text(model_id) is None:
            t.eq(len(fn), 0, "categorize without a model")
            t.label("no model")
        else:
            t.eq(len(fn), 1, "categorize steps")
            fresh = fn[0]
            left.remove(fresh)
            got = fresh["in"]
            t.eq(got.get("model"), model_text(model_id), "model of categorize")
            for p in ("radar", "lidar", "disdrometer"):
                if p in made:
                    expect = {text_of(made[p])}
                else:
                    kind, vals = prefs.get(p, (None, []))
                    expect = None
                    for v in vals if kind == "flag" else []:
                        ms = offered(p, v) or (offered("doppler-lidar", v) if p == "lidar" else [])
                        if ms:
                            expect = {portal_text(m) for m in ms}
                            t.label("preferred input")
                            break
                    if expect is None:
                        expect = {portal_text(m) for m in offered(p)} or {None}
                t.ok(got.get(p) in expect, f"{p} of categorize is {got.get(p)}, expected {expect}")
            expect = None
            if "mwr" in made:
                expect = {text_of(made["mwr"])}
            else:
                for q, v in (("mwr-single", None), ("mwr", None), ("radar", "rpg-fmcw-35"), ("radar", "rpg-fmcw-94")):
                    if offered(q, v):
                        expect = {portal_text(m) for m in offered(q, v)}
                        break
                else:
                    expect = {None}
                    if "radar" in made:
                        expect.add(text_of(made["radar"]))
            t.ok(got.get("mwr") in expect, f"mwr of categorize is {got.get('mwr')}, expected {expect}")
            t.eq(fresh["args"]["options"], None if case["options"] is None else {"temperature_offset": 3}, "options of categorize")
            t.eq(fresh["out"], day_out / "geophysical" / "20230729_munich_categorize.nc", "categorize file")
            choices += len(expect) > 1 or None in expect
    # --- products of categorize
    done = {}
    for p in CAT:
        fn = [e for e in left if e["fn"] == f"generate_{p}"]
        source = {text_of(fresh)} if fresh else {portal_text(m) for m in offered("categorize")}
        if p not in want or not source:
            t.eq(len(fn), 0, f"{p} steps")
            continue
        t.eq(len(fn), 1, f"{p} steps")
        left.remove(fn[0])
        done[p] = fn[0]
        t.ok(list(fn[0]["in"].values())[0] in source, f"{p} was made of {fn[0]['in']}, not of {source}")
        t.eq(fn[0]["out"], day_out / "geophysical" / f"20230729_munich_{p}.nc", f"{p} file")
    # --- radiometer products
    for p in ("mwr-single", "mwr-multi"):
        fn = [e for e in left if e["fn"] == f"generate_{p.replace('-', '_')}"]
        source = {text_of(made["mwr-l1c"])} if "mwr-l1c" in made else {portal_text(m) for m in offered("mwr-l1c")}
        if p not in want or not source:
            t.eq(len(fn), 0, f"{p} steps")
            continue
        t.eq(len(fn), 1, f"{p} steps")
        left.remove(fn[0])
        t.ok(list(fn[0]["in"].values())[0] in source, f"{p} was made of {fn[0]['in']}, not of {source}")
        t.ok(fn[0]["out"].parent == day_out / "geophysical" and fn[0]["out"].name.endswith(f"_munich_{p}.nc"), f"{p} file {fn[0]['out']}")
    # --- dissipation rate
    fn = [e for e in left if e["fn"] == "generate_epsilon_from_radar"]
    source = {text_of(made["radar"])} if "radar" in made else {portal_text(m) for m in offered("radar")}
    if "epsilon-radar" not in want or not source or model_text(model_id) is None:
        t.eq(len(fn), 0, "epsilon steps")
    else:
        t.eq(len(fn), 1, "epsilon steps")
        left.remove(fn[0])
        a, b = fn[0]["in"].values()
        t.ok(a in source and b == model_text(model_id), f"epsilon was made of {a} and {b}, expected {source} and {model_text(model_id)}")
        t.eq(fn[0]["out"], day_out / "geophysical" / "20230729_munich_epsilon-radar.nc", "epsilon file")
    # --- evaluation
    for p, src in (("l3-cf", "categorize"), ("l3-iwc", "iwc"), ("l3-lwc", "lwc")):
        fn = [e for e in left if e["fn"] == "process_L3_day_product" and e["args"]["product"] == p[3:]]
        own = fresh if src == "categorize" else done.get(src)
        source = {text_of(own)} if own else {portal_text(m) for m in offered(src)}
        mid = model_id or "ecmwf"
        if p not in want or not source or model_text(mid) is None:
            t.eq(len(fn), 0, f"{p} steps")
            continue
        t.eq(len(fn), 1, f"{p} steps")
        left.remove(fn[0])
        e = fn[0]
        t.ok(e["in"]["product_file"] in source, f"{p} was made of {e['in']['product_file']}, not of {source}")
        t.eq(e["in"]["model_file"], model_text(mid), f"model of {p}")
        t.eq([e["args"]["model"], e["args"]["model_name"], e["args"]["site_name"]], [mid, next(m.name for m in MODELS if m.id == mid), "Munich"], f"names of {p}")
        t.eq(e["out"].parent, day_out / "evaluation", f"folder of {p}")
        t.ok(p in e["out"].name and mid in e["out"].name and e["out"].suffix == ".nc", f"file of {p}: {e['out'].name}")
    t.eq([e["fn"] for e in left], [], "steps that were not asked for")
    # --- figures
    if case["plot"] == "no":
        t.eq(len(figures), 0, "figures")
    else:
        seen = {}
        for f in figures:
            name = Path(f["filename"] if f["kind"] == "figure" else f["nc_file"])
            seen[(cwd / name).resolve()] = f
        t.eq(set(seen), set(by_out), "plotted files")
        t.eq(len(figures), len(log), "figures")
        for p, f in seen.items():
            e = by_out[p]
            t.eq(bool(f["show"]), case["plot"] in ("show", "both"), "shown")
            saves = case["plot"] in ("plot", "both")
            if f["kind"] == "l3":
                t.eq(f["var_list"], case["variables"].split(",") if case["variables"] else None, "variables")
                t.eq(f["product"], e["args"]["product"], "product of the figure")
                t.ok((cwd / f["save_path"]).resolve() == p.parent and str(f["save_path"]).endswith("/") if saves else f["save_path"] is None and f["image_name"] is None, f"place of the figure {f['save_path']}")
                continue
            base = next((q for q, x in {**made, **done, "categorize": fresh}.items() if x is e), None)
            if case["variables"]:
                t.eq(list(f["variables"]), ["Zh", "v"], "variables")
            elif base:
                t.eq(list(f["variables"]), VARS.get(base, ["alpha", "beta_1"]), f"variables of {base}")
            img = f["output_filename"]
            if saves:
                t.eq((cwd / img).resolve(), p.with_suffix(".png"), "picture")
            else:
                t.ok(img is None, f"picture {img}")
            t.eq(f["options"].max_y if f["options"] is not None else None, case["max_y"] or 12, "height limit")
        t.label("plotted")
    t.mark(len(log) >= 2 and (choices or existing or stale))
    t.label(f"{len(log)} steps")


c.main()
