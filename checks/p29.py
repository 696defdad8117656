from gen import *
from corpus import corpus
TITLE = "Execution is pure: it touches only its context and the output buffer"
BOUNDS = {"quick": "a schema corpus with every field kind; all data and host values; both modes; at every host call another context runs completely on the same program; contexts start with arbitrary memory contents", "thorough": "the same, shorter buffers too and the other context in both modes"}


def make(tier, seed):
    out = []
    q = tier == "quick"
    for nm, p, n in corpus(q):
        for i, m in enumerate("ed"):
            t = text(p).replace('#include "codec.h"', '#include "purity.h"\n').replace("cd_run((int)csx_param(0)", "pu_run((int)csx_param(0)").replace(", (int)csx_param(3), orc);", ", (int)csx_param(3), (int)csx_param(4));")
            for om in (1 - i,) if q else (0, 1):
                out.append(Job("%s/%s%s" % (nm, "enc" if m == "e" else "dec", "-other" + "ed"[om]), None, group="comp", params=[i, n - 1 if nm in ("uint32", "bits", "strings", "branches") or not q else n, n, 1 if nm == "fixed" else 0, om], text=t, must=["complete"], defs=["-DCONCSTR"], time=300))
    return out
