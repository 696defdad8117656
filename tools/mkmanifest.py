#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in /verif/checks."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
exec(open(V + "/tools/na.py").read())
NOTE = "Symbolic execution of the current C sources (clang IR) with Z3: every path within the stated sizes is explored and every assertion is decided by the solver for all values; counterexamples are replayed on an ASan/UBSan build before they are reported. Trusted: the csx engine and mini libc (validated by replaying path models natively), clang, Z3, the reference oracle in harness/."
checks = []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i.lower()):
        src = open(V + "/checks/%s.py" % i.lower()).read()
        m = re.search(r'^NOTE = "(.*)"$', src, re.M)
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "bounded symbolic execution of the real code (LLVM IR) with an SMT solver (Z3), assertions against an independent reference model",
                       "level": "model_checking", "level_note": (m.group(1) + " " if m else "") + NOTE})
    elif i not in NA:
        NA[i] = "no check registered yet"
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile /repo's sources unmodified", "source_commits": []}, "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}, open(V + "/MANIFEST.json", "w"), indent=1)
import subprocess
subprocess.run(["python3-vt", "-c", "import json,jsonschema;jsonschema.validate(json.load(open('%s/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')));print('manifest ok',%d)" % (V, len(checks))])
