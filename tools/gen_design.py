"""Fills the lists of DESIGN.in.md: fixes, known findings, planted bugs, properties without a check."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools")
from checks import CHECKS
rd = lambda p: open(os.path.join(R, p)).read()
fixed = json.loads(rd("tools/fixed.json"))
known = json.loads(rd("tools/known.json"))
man = json.loads(rd("MANIFEST.json"))
d = rd("tools/DESIGN.in.md")
by = {}
for m, v in fixed.items():
    for p in v["props"][:1] or ["-"]:
        by.setdefault(p, []).append(m.replace("fix: ", ""))
d = d.replace("@FIXES@", "\n".join("* %s: %s." % (p, "; ".join(by[p])) for p in sorted(by)))
d = d.replace("@KNOWN@", "\n".join("* %s `%s`: %s" % (k["property"], k["case"], k["what"]) for k in known))
rows = []
for s in sorted(os.listdir(R + "/seeded")) if os.path.isdir(R + "/seeded") else []:
    m = json.loads(rd("seeded/%s/meta.json" % s))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"]))
d = d.replace("@SEEDED@", "\n| change | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows))
d = d.replace("@NA@", "".join("* **%s** not applicable: %s\n" % (x["property"] if "property" in x else x["id"], x["reason"]) for x in man["not_applicable"]))
open(R + "/DESIGN.md", "w").write(d)
