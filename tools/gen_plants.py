#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md (section 5); with -w, put it there."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| plant | property | what it breaks | needs |", "|---|---|---|---|"]
for n in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{n}/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], *(m[k].replace("|", "/").replace("\n", " ") for k in ("what_it_breaks", "needs"))))
text = "\n".join(rows)
if "-w" in sys.argv:
    p = here + "/DESIGN.md"
    s = open(p).read()
    a, b = "<!-- plants -->\n", "<!-- /plants -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + text + "\n" + s[j:])
else:
    print(text)
