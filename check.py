#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on /repo's current tree (exit 0 held / 1 violated)."""
import os, sys, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import csxlib
if len(sys.argv) < 2 or sys.argv[1] == "setup":
    csxlib.engine()
    print("engine ready")
    sys.exit(0)
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
m = importlib.import_module(prop.lower())
only = sys.argv[3] if len(sys.argv) > 3 else None
jobs = m.make(tier, seed)
if only:
    import re
    jobs = [j for j in jobs if re.search(only, j.label)]
sys.exit(csxlib.run_check(prop, m.TITLE, jobs, tier, seed, assumptions=getattr(m, "ASSUMPTIONS", ()), bounds=getattr(m, "BOUNDS", {}).get(tier, "") if isinstance(getattr(m, "BOUNDS", ""), dict) else getattr(m, "BOUNDS", ""), extra_cov=getattr(m, "EXTRA", None)))
