import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vh import *  # noqa
import datetime
import functools
import importlib
import inspect
import pickle
import pkgutil
import shutil
import traceback
import uuid as uuidlib

import netCDF4
from hypothesis import strategies as st

import cloudnetpy.categorize
import cloudnetpy.instruments
import cloudnetpy.products
import vh

c = Check(
    "P12",
    "Sequences of two to eleven processing calls (any instrument, categorize, any product; inputs drawn from the generators of the other checks; some calls with damaged or missing inputs, some repeated) run in one process; each call's output "
    "(values, masks, fill values, types, attributes, dimensions) and outcome (exception) is compared with the same call run alone in a fresh process, and all input files with their state before.  "
    "Non-trivial: at least two calls of the sequence write a file.",
    ["identifiers, creation times and history are not compared", "calls whose arguments cannot be passed between processes are skipped"],
)


# -- recording of calls made by the other checks -------------------------------
class Recorded(BaseException):
    pass


STATE = {"on": False}


def entry_points():
    out = {}
    for pkg in (cloudnetpy.instruments, cloudnetpy.products, cloudnetpy.categorize):
        for name, f in vars(pkg).items():
            if inspect.isfunction(f) and f.__module__.startswith("cloudnetpy.") and (name.endswith("2nc") or name.startswith("generate_")):
                out[name] = f
    return out


def wrapper(name, f):
    @functools.wraps(f)
    def g(*a, **kw):
        if STATE["on"]:
            raise Recorded(name, a, kw)
        return f(*a, **kw)

    return g


for m in pkgutil.walk_packages(cloudnetpy.__path__, "cloudnetpy."):
    if not m.name.startswith("cloudnetpy.cli"):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
ENTRY = entry_points()
WRAP = {f: wrapper(n, f) for n, f in ENTRY.items()}
for mod in [m for n, m in list(sys.modules.items()) if n.startswith("cloudnetpy")]:
    for k, v in list(vars(mod).items()):
        if inspect.isfunction(v) and v in WRAP:
            setattr(mod, k, WRAP[v])

SUBS = {}
GROUPS = {"lidar": ["P22"], "radar": ["P23"], "mwr": ["P19"], "weather": ["P20", "P21"], "geo": ["P04"], "products": ["P13", "P14", "P15", "P16", "P17", "P18"], "categorize": ["P08"]}
real_main = Check.main
Check.main = lambda self: None
for group, pids in GROUPS.items():
    for pid in pids:
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), f"{pid}.py")
        if not os.path.exists(path):
            continue
        ns = {"__file__": path, "__name__": f"check_{pid}"}
        with open(path) as fh:
            exec(compile(fh.read(), path, "exec"), ns)
        for name, sub in ns["c"].subs.items():
            if name in ("table", "unsupported", "lpm_reader", "parsivel_reader", "toa5_reader", "stripes", "priority"):
                continue
            SUBS[f"{pid}/{name}"] = (group, sub)
Check.main = real_main


# -- processes -------------------------------------------------------------------
def forked(fn):
    """Result of fn in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                try:
                    data = pickle.dumps((True, fn()))
                except BaseException:
                    data = pickle.dumps((False, traceback.format_exc()[-1500:]))
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise HarnessError(f"child ended with status {status}")
    good, value = pickle.loads(data)
    if not good:
        raise HarnessError(f"child failed: {value}")
    return value


def swap(x, old, new):
    if isinstance(x, (str, os.PathLike)):
        return type(x)(str(x).replace(old, new)) if isinstance(x, os.PathLike) else x.replace(old, new)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*(swap(y, old, new) for y in x))
    if isinstance(x, (list, tuple)):
        return type(x)(swap(y, old, new) for y in x)
    if isinstance(x, dict):
        return {k: swap(v, old, new) for k, v in x.items()}
    return x


def record(key, case, folder):
    """The first processing call that the body of another check makes: (name, args, kwargs) or None."""
    os.makedirs(folder)
    t = vh.T(case)
    t._dir = folder
    STATE["on"] = True
    try:
        SUBS[key][1]["fn"](case, t)
    except Recorded as e:
        name, a, kw = e.args
        try:
            pickle.dumps((a, kw))
        except Exception:
            return None
        return name, a, kw
    except Exception:
        return None
    finally:
        STATE["on"] = False
    return None


def tag(folder, i):
    """Different inputs of a sequence come from different instruments."""
    for root, _, names in os.walk(folder):
        for n in names:
            with open(os.path.join(root, n), "rb") as f:
                if f.read(4) not in (b"\x89HDF", b"CDF\x01", b"CDF\x02"):
                    continue
            try:
                with netCDF4.Dataset(os.path.join(root, n), "a") as nc:
                    if i % 3 or "cloudnet_file_type" not in nc.ncattrs():
                        nc.instrument_pid = f"https://hdl.handle.net/21.12132/3.{i}{n[:3]}"
            except OSError:
                pass


def outputs(a, kw, folder):
    out = []

    def walk(x):
        if isinstance(x, (str, os.PathLike)) and str(x).startswith(folder) and not os.path.exists(x):
            out.append(str(x))
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)

    walk(list(a) + list(kw.values()))
    return out


SKIP = {"file_uuid", "history", "created", "_NCProperties"}


def content(path):
    d = {}
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        d["format"] = nc.data_model
        d["dims"] = {k: (len(v), v.isunlimited()) for k, v in nc.dimensions.items()}
        d["global"] = {k: plain(nc.getncattr(k)) for k in nc.ncattrs() if k not in SKIP}
        for k, v in nc.variables.items():
            d[f"variable {k}"] = (str(v.dtype), v.dimensions, {a: plain(v.getncattr(a)) for a in v.ncattrs()}, np.asarray(v[...]).tobytes() if v.dtype != str else str(v[...]))
    return d


def plain(x):
    return x.tolist() if isinstance(x, (np.ndarray, np.generic)) else x


def run_job(job, folder, tag):
    """Outcome of one recorded call whose output paths get a suffix."""
    name, a, kw = job
    out = sorted(set(outputs(a, kw, folder)))
    b, bw = a, kw
    for o in out:
        b, bw = swap(b, o, f"{o}.{tag}"), swap(bw, o, f"{o}.{tag}")
    os.chdir(folder)
    try:
        ret = ENTRY[name](*b, **bw)
        res = "ok" if ret is not None else "none"
    except Exception as e:
        res = f"{type(e).__name__}: {e}".replace(f".{tag}", "")
    files = {}
    for o in out:
        p = f"{o}.{tag}"
        if os.path.isfile(p):
            try:
                files[os.path.basename(o)] = content(p)
            except OSError as e:
                files[os.path.basename(o)] = str(e).replace(f".{tag}", "")
            os.unlink(p)
    return res, files


def hashes(folder):
    h = {}
    for root, _, names in os.walk(folder):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                h[os.path.relpath(p, folder)] = hashlib.sha1(f.read()).hexdigest()
    return h


def damage(folder, how):
    files = sorted((os.path.getsize(p), p) for p in (os.path.join(r, n) for r, _, ns in os.walk(folder) for n in ns))
    if not files:
        return
    size, p = files[how % len(files)]
    if how % 3 == 0:
        os.unlink(p)
    elif how % 3 == 1:
        with open(p, "r+b") as f:
            f.truncate(size // 2)
    else:
        with open(p, "r+b") as f:
            f.seek(size // 3)
            f.write(os.urandom(0) + b"\x00garbage\xff" * 8)


def diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {short(a, 200)} vs {short(b, 200)}"
    if isinstance(a, dict):
        for k in [*a, *(k for k in b if k not in a)]:
            if k not in a or k not in b:
                return f"{path}/{k}: only {'alone' if k in a else 'in the sequence'}"
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, tuple):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, float) and a != a and b != b:
        return None
    return None if a == b else f"{path}: {str(a)[:200]} alone, {str(b)[:200]} in the sequence"


@st.composite
def sequences(draw):
    groups = sorted({g for g, _ in SUBS.values()})
    g = draw(st.sampled_from([*groups, "categorize", "products"]))
    pool = sorted(k for k, (x, _) in SUBS.items() if x == g)
    names = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique=True))
    if draw(st.integers(0, 2)) == 0:
        names.append(draw(st.sampled_from(sorted(SUBS))))
    n = draw(st.integers(2, 5))
    jobs = []
    for _ in range(n):
        k = draw(st.sampled_from(names))
        jobs.append([k, draw(SUBS[k][1]["strategy"]), draw(st.sampled_from([-1] * 12 + [0, 1, 2, 3, 4, 5]))])
    return {"jobs": jobs, "again": draw(st.booleans())}


@c.sub("sequence", sequences(), quick=26, thorough=700, shards=8)
def _(case, t):
    base = t.dir
    folders = [os.path.join(base, f"job{i}") for i in range(len(case["jobs"]))]
    jobs = forked(lambda: [record(k, x, f) for (k, x, _), f in zip(case["jobs"], folders)])
    plan = []
    for (k, _, bad), job, folder in zip(case["jobs"], jobs, folders):
        if job is None:
            t.label("no call")
            continue
        if case["again"] or k[:3] in ("P08", "P13"):
            tag(folder, len(plan))
        if bad >= 0:
            hurt = folder + "x"
            shutil.copytree(folder, hurt)
            damage(hurt, bad)
            plan.append((k, swap(job, folder, hurt), hurt, True))
        plan.append((k, job, folder, False))
    if case["again"] and plan:
        plan.append(next(p for p in plan if not p[3]))
    if len(plan) < 2:
        return
    before = {f: hashes(f) for _, _, f, _ in plan}
    alone = {}
    for i, (k, job, folder, bad) in enumerate(plan):
        if not bad and folder not in alone:
            alone[folder] = forked(lambda: run_job(job, folder, "res"))
    together = forked(lambda: [run_job(job, folder, "res") for _, job, folder, _ in plan])
    for i, ((k, job, folder, bad), got) in enumerate(zip(plan, together)):
        if bad:
            continue
        d = diff(alone[folder], got)
        t.ok(d is None, lambda: f"call {i + 1} ({job[0]}, inputs of {k}) after {[p[1][0] + (' with damaged input' if p[3] else '') for p in plan[:i]]} differs from the same call alone: {d}")
    for f, h in before.items():
        now = {k: v for k, v in hashes(f).items() if k in h}
        t.ok(now == h, lambda: f"input files changed: {[k for k in h if now.get(k) != h[k]]}")
    wrote = [i for i, (p, got) in enumerate(zip(plan, together)) if got[0] in ("ok", "none") and got[1] and not p[3]]
    t.mark(len(wrote) >= 2)
    for (k, job, _, bad), got in zip(plan, together):
        t.label(job[0])
        t.label(f"failing {job[0]} {got[0]}", not bad and got[0] not in ("ok", "none"))


c.main()
