"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
import importlib
NOTES = {
 "P01": ("explicit-state search over expressions with exact rational model, replayed on the library", "complete up to depth 2 (quick) / 4 operations over a fixed alphabet of discrete variables; every model state is compared with the library"),
}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "notes.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NOTES and os.path.exists(os.path.join(ROOT, "mc", i.lower() + ".py")):
        m = importlib.import_module("mc." + i.lower())
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "technique": NOTES[i][0], "level": m.LEVEL, "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet") if "NA" in globals() else "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks drive the public interface and replace the process pool and the random source from outside."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
