#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md, the checks and the seeded bugs."""
import sys, os, re, json, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/checks", V + "/lib"]
NA = {}
exec(open(V + "/tools/na.py").read())
HOW = {}
exec(open(V + "/tools/how.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = []
for p in props:
    i = p["id"]
    o.append("### %s %s" % (i, p["title"]))
    f = V + "/checks/%s.py" % i.lower()
    if os.path.exists(f):
        try:
            m = importlib.import_module(i.lower())
        except Exception as e:
            print(i, e)
        b = getattr(m, "BOUNDS", None)
        if b is None:
            b = ""
        o.append(HOW.get(i, "") + " \nBounds, quick: " + (b if isinstance(b, str) else b["quick"]) + ("." if isinstance(b, str) else ". \nThorough: " + b["thorough"] + "."))
    else:
        o.append("Not applicable: " + NA.get(i, "no check"))
    o.append("")
s = []
CAUGHT = {}
exec(open(V + "/tools/caught.py").read())
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    s.append("* `%s` (%s): %s. Needs %s. %s" % (n, m["property"], m["what_it_breaks"], m["needs"], CAUGHT.get(n, "Caught by %s quick." % m["property"])))
t = open(V + "/tools/design.in.md").read()
t = t.replace("@@TABLE@@", "\n".join(o)).replace("@@SEEDED@@", "\n".join(s)).replace("@@NA@@", "\n".join("* %s: %s" % x for x in sorted(NA.items()) if not os.path.exists(V + "/checks/%s.py" % x[0].lower())))
open(V + "/DESIGN.md", "w").write(t)
