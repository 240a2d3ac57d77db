"""Regenerates the 'fixed' lines of known_findings.jsonl from the fix: commits in /repo."""
import json, os, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = json.load(open(os.path.join(ROOT, "tools", "fixed.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
f = os.path.join(ROOT, "known_findings.jsonl")
keep = [l for l in open(f) if '"keys"' in l]
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        k = s[4:].strip()
        if k not in PROP:
            print("no entry for:", k)
            continue
        p, what = PROP[k]
        for x in p.split():
            out.append(json.dumps({"fixed": "fixed: property=%s %s %s" % (x, h, what)}) + "\n")
open(f, "w").writelines(out + keep)
