#!/usr/bin/env python3
"""try_plants.py [--tests] ID...: for every planted bug, whether the existing tests pass and its check reports it (in a scratch copy)."""
import concurrent.futures as cf, json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
REF = "/opt/vp/BASELINE.json"
def one(i):
    d = V / "seeded" / i
    wt = pathlib.Path(tempfile.mkdtemp(prefix="try_")) / "repo"
    try:
        subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
        subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=wt, check=True)
        out = [i]
        for f in (d / "meta.json",):
            prop = json.loads(f.read_text())["property"]
        if "--tests" in sys.argv:
            r = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 --continue-on-collection-errors -rA 2>&1", cwd=wt, shell=True, capture_output=True, text=True)
            got = {l.split()[1] for l in r.stdout.splitlines() if l.startswith("PASSED")}
            ref = set(json.loads(pathlib.Path("/tmp/plant_ref.json").read_text()))
            out.append(f"tests lost {sorted(ref - got)[:3]}")
        if "--nocheck" not in sys.argv:
            r = subprocess.run(["bash", str(V / "run.sh"), prop], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": str(wt), "VERIF_EVID": str(wt.parent / "ev"), "VERIF_SEED": "1"})
            out.append(f"check {prop} rc {r.returncode} " + next((l[:160] for l in r.stdout.splitlines() if l.startswith("VIOLATION")), "MISSED"))
        return " | ".join(out)
    finally:
        shutil.rmtree(wt.parent)
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(p.name for p in (V / "seeded").iterdir())
with cf.ThreadPoolExecutor(2) as ex:
    for x in ex.map(one, ids):
        print(x, flush=True)
