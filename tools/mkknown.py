"""Regenerates known_findings.json from fixes.txt and open.json (by hand)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
out = []
for l in open(os.path.join(H, "fixes.txt")):
    if l.strip():
        p, c, w = l.strip().split("|", 2)
        out.append({"property": p, "status": "fixed", "commit": c, "what": w, "record": "fixed: property=%s %s %s" % (p, c, w)})
o = os.path.join(H, "open.json")
if os.path.exists(o):
    out += json.load(open(o))
json.dump(out, open(os.path.join(os.path.dirname(H), "known_findings.json"), "w"), indent=1)
