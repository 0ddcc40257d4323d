#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py  (SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo=str)

Writes seeded/<id>/ after confirming, in a scratch copy of /repo, that the demo passes without and fails with the
change and that the stable tests still pass."""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
DEMO_SH = '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"\n'
def main(spec):
    s = runpy.run_path(spec)
    tests = "--notest" not in sys.argv
    wt = pathlib.Path(tempfile.mkdtemp(prefix="plant_")) / "repo"
    try:
        subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
        for f, old, new in s["edits"]:
            p = wt / f; t = p.read_text()
            assert t.count(old) == 1, (f, t.count(old))
            p.write_text(t.replace(old, new))
        diff = run("git diff", wt).stdout
        out = wt.parent / s["id"]; out.mkdir()
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(s["demo"].lstrip("\n"))
        for name, text in s.get("files", {}).items():
            (out / name).write_text(text.lstrip("\n"))
        (out / "demo.sh").write_text(DEMO_SH); (out / "demo.sh").chmod(0o755)
        (out / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1))
        a = run(f"bash {out}/demo.sh", "/repo"); b = run(f"bash {out}/demo.sh", wt)
        print(s["id"], "demo unchanged:", a.returncode, "patched:", b.returncode, b.stderr.strip().splitlines()[-1:] )
        if a.returncode != 0 or b.returncode == 0:
            print(a.stdout[-500:], a.stderr[-1500:]); return 1
        if tests:
            r = run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -x --maxfail=1000 -n 4 -rA tests 2>&1" if False else
                    "/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -rA 2>&1", wt)
            passed = sum(1 for l in r.stdout.splitlines() if l.startswith("PASSED"))
            ref_file = pathlib.Path("/tmp/plant_ref.json")
            got = sorted(l.split()[1] for l in r.stdout.splitlines() if l.startswith("PASSED"))
            if not ref_file.exists():
                r0 = run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -rA 2>&1", "/repo")
                ref_file.write_text(json.dumps(sorted(l.split()[1] for l in r0.stdout.splitlines() if l.startswith("PASSED"))))
            lost = set(json.loads(ref_file.read_text())) - set(got)
            print("tests passed:", passed, "lost:", sorted(lost)[:5])
            if lost: return 1
        dst = V / "seeded" / s["id"]
        if dst.exists(): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        print("planted", dst)
        return 0
    finally:
        shutil.rmtree(wt.parent)
sys.exit(main(sys.argv[1]))
