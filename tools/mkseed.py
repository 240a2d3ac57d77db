#!/opt/venv/bin/python
"""Make /verif/seeded/<id> from a spec file (python: ID, PROPERTY, FILE, EDITS=[(old,new),...], NEEDS, BREAKS, DEMO).
Verifies: single occurrence, lines original, demo passes before/fails after, repo tests pass, and runs the check."""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "04d01ef"
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
DEMO_SH = """#!/bin/bash
# cwd: the repository under test
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec timeout 250 "$PY" "$D/demo.py"
"""
def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    skip_tests = "--notests" in sys.argv
    d = os.path.join(VERIF, "seeded", spec["ID"])
    wt = tempfile.mkdtemp(prefix="wt_", dir="/tmp")
    os.rmdir(wt)
    sh(["cp", "-a", "/repo", wt])
    try:
        edits = spec["EDITS"]
        for e in edits:
            f, old, new = e if len(e) == 3 else (spec["FILE"],) + tuple(e)
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            # each changed line must be original
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", wt, "diff"]).stdout
        # lines removed must be from the base commit
        for f in set(e[0] if len(e) == 3 else spec["FILE"] for e in edits):
            bl = sh(["git", "-C", "/repo", "blame", "-s", "-l", f]).stdout.splitlines()
            cur = None
            base_full = sh(["git", "-C", "/repo", "rev-parse", BASE]).stdout.strip()
            ln = 0; infile = False
            for l in diff.splitlines():
                if l.startswith("+++ "):
                    infile = l == "+++ b/" + f
                m = re.match(r"@@ -(\d+)", l)
                if m: ln = int(m.group(1)) - 1; continue
                if not infile or l.startswith("+"): continue
                if l.startswith("-") and not l.startswith("---"):
                    ln += 1
                    b = bl[ln - 1]
                    if not (b.startswith("^") or b.startswith(base_full)):
                        print("WARNING: not an original line:", b)
                elif l.startswith(" "):
                    ln += 1
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        r1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=wt)
        print("demo clean rc", r0.returncode, "patched rc", r1.returncode)
        ok = r0.returncode == 0 and r1.returncode != 0
        if not ok: print("CLEAN:", r0.stdout[-1500:], "\nPATCHED:", r1.stdout[-800:])
        else: print("   patched says:", r1.stdout.strip().splitlines()[-1:] )
        if not skip_tests:
            t = sh("cd %s && MPLBACKEND=Agg PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=120 --continue-on-collection-errors -o python_files='test_*.py *_test.py testPlot.py' tests 2>&1 | tail -4" % (wt, wt), shell=True)
            print("tests:", t.stdout.strip().splitlines()[-1:])
        if "--nocheck" not in sys.argv:
            c = sh([os.path.join(VERIF, "check"), spec["PROPERTY"]], env=dict(os.environ, VERIF_REPO=wt))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print("check rc", c.returncode, "violations", len(v), c.stdout.strip().splitlines()[1:4])
    finally:
        shutil.rmtree(wt)
main()
