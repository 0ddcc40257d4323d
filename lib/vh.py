"""Common harness: drives Hypothesis, writes evidence and replay files.

A check file declares sub-properties with ``@c.sub(...)`` and ends with
``c.main()``.  A sub-property is a strategy that produces a JSON-serialisable
case and a function ``fn(case, t)`` that exercises the code under test and calls
``t.fail(...)``/``t.ok(...)`` when the oracle disagrees.  The whole run is a pure function of
the code under test, VERIF_SEED and VERIF_TIER.

Exit codes: 0 held, 1 violated (+ VIOLATION line), 2 error of the check.
"""

from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
if VT not in sys.path:
    sys.path.append(VT)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["TZ"] = "UTC"
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
time.tzset()

import logging  # noqa: E402

import hypothesis  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402

logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")
np.seterr(all="ignore")

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

CASE_LIMIT = 120  # a case normally takes milliseconds to seconds
_engine.MAX_SHRINKING_SECONDS = 45 if TIER == "quick" else 240


class Violation(AssertionError):
    """The oracle and the code under test disagree."""


class HarnessError(Exception):
    """The check itself is broken."""


class KnownFinding(Exception):
    """A violation that is listed in known-findings.json."""


class T:
    """Per-case context handed to a sub-property."""

    def __init__(self, case):
        self.case = case
        self.nontrivial = False
        self.labels: set[str] = set()
        self._dir: str | None = None
        self.comparisons = 0

    # -- classification
    def mark(self, cond=True, label: str | None = None):
        if cond:
            self.nontrivial = True
            if label:
                self.labels.add(label)

    def label(self, name: str, cond=True):
        if cond:
            self.labels.add(name)

    # -- scratch space
    @property
    def dir(self) -> str:
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="vh_")
        return self._dir

    def path(self, name: str) -> str:
        return os.path.join(self.dir, name)

    def close(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    # -- oracles
    def fail(self, msg: str):
        raise Violation(msg)

    def ok(self, cond, msg):
        self.comparisons += 1
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, a, b, what=""):
        self.comparisons += 1
        if not (a == b):
            raise Violation(f"{what}: got {a!r}, expected {b!r}")

    def var(self, nc, name):
        """Variable of an output file; its absence is a violation."""
        if name not in nc.variables:
            raise Violation(f"variable {name!r} missing from the output")
        return nc.variables[name]

    def same(self, got, exp, what="", rtol=1e-5, atol=1e-8, mask=True):
        """Masked-array comparison: same shape, same mask, close values.

        NaN in either array counts as masked only if it is so in both.
        """
        self.comparisons += 1
        g = np.ma.array(got, copy=True)
        e = np.ma.array(exp, copy=True)
        if g.shape != e.shape:
            raise Violation(f"{what}: shape {g.shape}, expected {e.shape}")
        gm = np.ma.getmaskarray(g)
        em = np.ma.getmaskarray(e)
        if mask and not np.array_equal(gm, em):
            i = tuple(int(x) for x in np.argwhere(gm != em)[0])
            raise Violation(
                f"{what}: masked={bool(gm[i])} at {i}, expected masked="
                f"{bool(em[i])} (value got {g.data[i]!r}, expected {e.data[i]!r}; "
                f"{int((gm != em).sum())} of {gm.size} differ)"
            )
        both = ~gm & ~em
        gd = np.asarray(g.data)[both]
        ed = np.asarray(e.data)[both]
        if gd.dtype.kind in "fciu" and ed.dtype.kind in "fciub":
            bad = ~np.isclose(
                gd.astype(float), ed.astype(float), rtol=rtol, atol=atol, equal_nan=True
            )
        else:
            bad = gd != ed
        if bad.any():
            idx = np.argwhere(both)[np.argwhere(bad)[0][0]]
            k = int(np.argwhere(bad)[0][0])
            raise Violation(
                f"{what}: at {tuple(int(x) for x in idx)} got {gd[k]!r}, expected "
                f"{ed[k]!r} ({int(bad.sum())} of {bad.size} differ)"
            )


def in_repo(tb) -> bool:
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(os.path.join(REPO, "cloudnetpy")):
            return True
    return False


def missing_in_output(e) -> bool:
    """An attribute or variable of a NetCDF file that the check reads is not there."""
    if isinstance(e, AttributeError) and "NetCDF: Attribute not found" in str(e):
        return True
    if isinstance(e, IndexError) and "not found in /" in str(e):
        return True
    line = traceback.extract_tb(e.__traceback__)[-1].line or ""
    return isinstance(e, KeyError) and (".variables[" in line or ".dimensions[" in line)


class Check:
    def __init__(self, pid: str, rule: str, assumptions: list[str] | None = None):
        self.pid = pid
        self.rule = rule
        self.assumptions = assumptions or []
        self.subs: dict[str, dict] = {}

    def sub(self, name, strategy, quick=100, thorough=None, shards=1):
        """Register a sub-property.

        quick/thorough are example counts per shard.
        """
        if thorough is None:
            thorough = quick * 15

        def deco(fn):
            self.subs[name] = {
                "strategy": strategy,
                "fn": fn,
                "quick": quick,
                "thorough": thorough,
                "shards": shards,
            }
            return fn

        return deco

    # ------------------------------------------------------------------
    def _known(self):
        path = os.path.join(VERIF, "known-findings.json")
        if not os.path.exists(path):
            return []
        with open(path) as f:
            d = json.load(f)
        return [e for e in d.get("findings", []) if e["property"] == self.pid]

    def _exec(self, sub, case):
        """Run one case; returns T or raises."""
        t = T(case)

        def on_alarm(*_):
            raise Violation(f"no result within {CASE_LIMIT} s")

        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
        try:
            sub["fn"](case, t)
        except (Violation, KnownFinding, HarnessError):
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as e:
            if in_repo(e.__traceback__):
                tb = [x for x in traceback.format_exc().strip().splitlines() if set(x.strip()) - set("^~")]
                raise Violation(
                    "code under test raised on a valid input: " + " | ".join(tb[-7:])
                ) from None
            if missing_in_output(e):
                raise Violation(f"the output lacks something it must contain: {e!r} | "
                                + " ".join(traceback.format_exc().split("\n")[-5:-3]).strip()) from None
            # The oracle works on every output of the right form (development runs
            # show oracle errors by this text), so the output has a wrong form.
            raise Violation("the output could not be evaluated: "
                            + " | ".join(traceback.format_exc().strip().splitlines()[-6:])) from None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            t.close()
        return t

    def _run_shard(self, name, shard, out):
        sub = self.subs[name]
        n = int(os.environ.get("VERIF_N", 0)) or sub[TIER]
        stats = {
            "evaluations": 0,
            "nontrivial": [],
            "labels": {},
            "samples": [],
            "comparisons": 0,
            "known": {},
        }
        seen = set()
        last = {}

        def body(case):
            stats["evaluations"] += 1
            try:
                t = self._exec(sub, case)
            except Violation as e:
                last["case"] = case
                last["msg"] = str(e)
                raise
            stats["comparisons"] += t.comparisons
            for lb in t.labels:
                stats["labels"][lb] = stats["labels"].get(lb, 0) + 1
            if t.nontrivial:
                h = hashlib.sha1(
                    json.dumps(case, sort_keys=True, default=str).encode()
                ).hexdigest()
                if h not in seen:
                    seen.add(h)
                    if len(stats["samples"]) < 2:
                        stats["samples"].append(short(case))

        seed = int.from_bytes(
            hashlib.sha256(f"{SEED}/{self.pid}/{name}/{shard}".encode()).digest()[:8],
            "big",
        )
        test = hypothesis.given(sub["strategy"])(body)
        test = hypothesis.seed(seed)(test)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            phases=(Phase.generate,) if os.environ.get("VERIF_NOSHRINK") else (Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        t0 = time.time()
        result = {"status": "ok"}
        try:
            test()
        except Violation as e:
            result = {"status": "violation", "case": last["case"], "msg": str(e)}
        except hypothesis.errors.Flaky as e:
            if last:
                # The oracle disagreed on a concrete case: re-run it alone.
                try:
                    self._exec(sub, last["case"])
                    result = {"status": "violation", "case": last["case"],
                              "msg": "result depends on earlier runs in the same "
                              "process: " + last["msg"], "flaky": True}
                except Violation as e2:
                    result = {"status": "violation", "case": last["case"],
                              "msg": str(e2)}
                except Exception:
                    result = {"status": "error", "msg": traceback.format_exc()}
            else:
                result = {"status": "error", "msg": repr(e)}
        except BaseException:
            result = {"status": "error", "msg": traceback.format_exc()}
        stats["nontrivial"] = sorted(seen)
        result.update(name=name, shard=shard, stats=stats, wall=time.time() - t0)
        with open(out, "w") as f:
            json.dump(result, f, default=jdefault)

    # ------------------------------------------------------------------
    def main(self):
        args = sys.argv[1:]
        try:
            import cloudnetpy

            if not os.path.realpath(cloudnetpy.__file__).startswith(REPO + "/"):
                print(f"ERROR: cloudnetpy imported from {cloudnetpy.__file__}")
                sys.exit(2)
        except ImportError:
            traceback.print_exc()
            sys.exit(2)
        if args and args[0] == "--replay":
            sys.exit(self.replay(args[1]))
        only = None
        if args and args[0] == "--only":
            only = args[1].split(",")
        sys.exit(self.run(only))

    def replay(self, path):
        with open(path) as f:
            d = json.load(f)
        try:
            self._exec(self.subs[d["sub"]], d["case"])
        except Violation as e:
            print(f"VIOLATION property={self.pid} replay={path}")
            print(e)
            return 1
        except HarnessError as e:
            print(e)
            return 2
        print("replay: the property held")
        return 0

    def run(self, only=None):
        t0 = time.time()
        for known in self._known():
            print(f"KNOWN-FINDING: property={self.pid} {known['what']}")
        tmp = tempfile.mkdtemp(prefix=f"vh_{self.pid}_")
        jobs = []
        for name, sub in self.subs.items():
            if only and name not in only:
                continue
            for s in range(sub["shards"]):
                jobs.append((name, s, os.path.join(tmp, f"{name}_{s}.json")))
        ctx = mp.get_context("fork")
        nproc = int(os.environ.get("VERIF_PROCS", "8"))
        running = []
        todo = list(jobs)
        budget = 800 if TIER == "quick" else 100000
        timed_out = []
        old_tmp = os.environ.get("TMPDIR")
        tempfile.tempdir = tmp
        try:
            while todo or running:
                while todo and len(running) < nproc:
                    job = todo.pop(0)
                    p = ctx.Process(target=self._run_shard, args=job)
                    p.start()
                    running.append((p, job))
                time.sleep(0.02)
                for p, job in running:
                    if not p.is_alive():
                        p.join()
                running = [(p, j) for p, j in running if p.is_alive()]
                if os.environ.get("VERIF_FAILFAST") and any(
                    '"status": "ok"' not in open(j[2]).read()[:20]
                    for j in jobs if os.path.exists(j[2]) and os.path.getsize(j[2]) > 0
                ):
                    for p, j in running:
                        p.kill()
                    running, todo = [], []
                if time.time() - t0 > budget:
                    for p, j in running:
                        p.kill()
                        timed_out.append(j[0])
                    timed_out += [j[0] for j in todo]
                    break
            results = []
            errors = []
            for name, s, out in jobs:
                if not os.path.exists(out):
                    errors.append(f"{name}/{s}: no result (killed or out of time)")
                    continue
                with open(out) as f:
                    results.append(json.load(f))
        finally:
            tempfile.tempdir = None
            shutil.rmtree(tmp, ignore_errors=True)
            if old_tmp:
                os.environ["TMPDIR"] = old_tmp
        viol = list({r["name"]: r for r in results if r["status"] == "violation"}.values())
        errors += [f"{r['name']}: {r['msg']}" for r in results if r["status"] == "error"]
        self.evidence(results, viol, time.time() - t0)
        for r in viol:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            path = os.path.join(VERIF, "replay", f"{self.pid}-{r['name']}.json")
            with open(path, "w") as f:
                json.dump(
                    {"property": self.pid, "sub": r["name"], "case": r["case"],
                     "message": r["msg"]},
                    f, indent=1,
                )
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  [{r['name']}] {r['msg'][:1500]}")
        for e in errors:
            print("ERROR:", e)
        tot = sum(r["stats"]["evaluations"] for r in results)
        nt = sum(len(set(r["stats"]["nontrivial"])) for r in results)
        if os.environ.get("VERIF_VERBOSE"):
            for r in results:
                s = r["stats"]
                print(f"  {r['name']}/{r['shard']}: {r['status']} n={s['evaluations']} "
                      f"nontrivial={len(s['nontrivial'])} wall={r['wall']:.1f}s "
                      f"labels={s['labels']}")
        print(f"{self.pid}: {tot} cases, {nt} distinct non-trivial, "
              f"{len(viol)} violations, {time.time() - t0:.1f} s")
        if viol:
            return 1
        if errors:
            return 2
        return 0

    def evidence(self, results, viol, wall):
        per = {}
        for r in results:
            d = per.setdefault(r["name"], {"evaluations": 0, "distinct_nontrivial": set(),
                                           "comparisons": 0, "labels": {}})
            d["evaluations"] += r["stats"]["evaluations"]
            d["comparisons"] += r["stats"]["comparisons"]
            d["distinct_nontrivial"] |= set(r["stats"]["nontrivial"])
            for k, v in r["stats"]["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
        samples = []
        for r in results:
            for s in r["stats"]["samples"][:1]:
                samples.append({"sub": r["name"], "case": s})
        ev = {
            "property": self.pid,
            "tier": TIER,
            "seed": SEED,
            "level": "exploration",
            "coverage": {
                "evaluations": sum(d["evaluations"] for d in per.values()),
                "distinct_nontrivial": sum(len(d["distinct_nontrivial"]) for d in per.values()),
                "rule": self.rule,
                "samples": samples[:12],
                "per_subproperty": {
                    k: {**v, "distinct_nontrivial": len(v["distinct_nontrivial"])}
                    for k, v in per.items()
                },
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(viol),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=jdefault)


def jdefault(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, set):
        return sorted(o)
    if isinstance(o, bytes):
        return o.hex()
    return str(o)


def short(case, limit=700):
    s = json.dumps(case, default=jdefault)
    if len(s) <= limit:
        return json.loads(s)
    return s[:limit] + "..."


def rng(seed: int):
    """Deterministic bulk data: a pure function of an integer drawn by Hypothesis."""
    return np.random.Generator(np.random.PCG64(seed))
