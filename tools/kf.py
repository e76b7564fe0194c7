"""Append to known_findings.json (development only):  kf.py fixed C10 <commit> <what>  |  kf.py known C10 <key> <what>"""
import json
import os
import sys

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
st, pr, k, what = sys.argv[1:5]
if st == "fixed":
    d["findings"].append({"property": pr, "status": "fixed", "what": f"fixed: property={pr} {k} {what}"})
else:
    d["findings"].append({"property": pr, "status": "known", "key": k, "what": what})
with open(p, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
