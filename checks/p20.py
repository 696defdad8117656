from gen import *
from corpus import corpus
TITLE = "The host callback is authoritative: an error stops the run immediately"
BOUNDS = {"quick": "a schema corpus with every field kind; every call position of the failing callback; all data and host values; both modes", "thorough": "larger buffers"}

FAIL = '#include "callback.h"\n'


def make(tier, seed):
    out = []
    q = tier == "quick"
    for nm, p, n in corpus(q):
        for pre in ("",) if q else ("", "@big_endian"):
            for m in "ed":
                if pre and not p.pre:
                    p.pre, p.be = pre, 1
                if nm == "optional" and m == "d":
                    lo = 0
                else:
                    lo = n
                t = text(p).replace('#include "codec.h"', FAIL).replace("cd_run((int)csx_param(0)", "cb_run((int)csx_param(0)").replace(", (int)csx_param(3), orc);", ", (int)csx_param(3));")
                out.append(Job("%s%s/%s" % (nm, pre[:2], "enc" if m == "e" else "dec"), None, group="comp", params=[0 if m == "e" else 1, lo, n, 1 if nm == "fixed" else 0], text=t, must=["stopped", "complete"], defs=["-DCONCSTR"], time=300))
    return out
