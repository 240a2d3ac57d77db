#!/bin/sh
# addfix.sh "commit subject after fix: " "P09 P10" "what failed"
cd "$(dirname "$0")/.." && /opt/venv/bin/python - "$@" <<'P'
import json,sys
d=json.load(open("tools/fixed.json")); d[sys.argv[1]]=[sys.argv[2],sys.argv[3]]; json.dump(d,open("tools/fixed.json","w"),indent=0)
P
/opt/venv/bin/python tools/fixed.py
