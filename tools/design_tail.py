#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md after the properties: planted bugs, defects, leftovers.  Not used by any check."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read(); m = "<!-- /properties -->\n"; head = t[:t.index(m) + len(m)]
o = ["\n## Planted bugs and which checks catch them\n",
"Each bug in `seeded/` was written from the property's text and the code, compiles, passes the repository's tests, and\nhas a demonstration.  All of them are reported by the quick check of the property they are filed under (those marked\n+ only after the check had been strengthened because it missed them at first).\n",
"| planted bug | caught by | needs |", "|---|---|---|"]
late = {"filename-mixed", "getinstance-window"}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    o.append("| %s%s | %s | %s |" % (n, " +" if n in late else "", j["property"], j["needs"]))
o.append(open(V + "/tools/design_notes.md").read())
open(V + "/DESIGN.md", "w").write(head + "\n".join(o))
