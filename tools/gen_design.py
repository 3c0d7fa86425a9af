#!/usr/bin/env python3
"""Rewrites the generated tables at the end of DESIGN.md."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import scenarios
P = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = []
out.append("### Scenarios per property\n")
out.append("(T) = thorough tier only. The oracle of each is the list of assertions\n`Cnn: ...` in the harness function of the same name; evidence files list them\nwith how often each was decided.\n")
for p in P:
    l = scenarios.ALL.get(p["id"])
    if not l:
        continue
    out.append("* **%s** %s: " % (p["id"], p["title"]) + ", ".join(s.pkg + "." + s.fn + (" (T)" if s.tier == "thorough" else "") for s in l))
out.append("\n### What each scenario leaves to the solver\n")
seen = set()
for p in P:
    for s in scenarios.ALL.get(p["id"], []):
        if s.key in seen:
            continue
        seen.add(s.key)
        out.append("* `%s.%s`: %s" % (s.pkg, s.fn, s.doc))
out.append("\n### Planted changes (seeded/)\n")
out.append("Each is caught by the quick check of its property (tools/seedtest.sh).\n")
out.append("| id | property | needs | breaks |\n|---|---|---|---|")
d = os.path.join(ROOT, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"]))
f = os.path.join(ROOT, "DESIGN.md")
s = open(f).read()
mark = "<!-- generated by tools/gen_design.py -->\n"
s = s[:s.index(mark) + len(mark)] + "\n" + "\n".join(out) + "\n"
open(f, "w").write(s)
