#!/usr/bin/env python3
"""setcheck.py ID TECHNIQUE NOTE: claims a property in tools/checks.json and rewrites MANIFEST.json."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(here, "checks.json")
d = json.load(open(f))
if sys.argv[2] == "NA":
    d[sys.argv[1]] = {"not_applicable": sys.argv[3]}
else:
    d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
subprocess.check_call([sys.executable, os.path.join(here, "mkmanifest.py")])
