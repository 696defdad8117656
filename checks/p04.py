from gen import *
TITLE = "float and double fields carry every bit pattern unchanged"
BOUNDS = "all 2^32 / 2^64 bit patterns; every type alias, both packet orders, per-field overrides, six surrounding contexts; buffer sizes from one byte short to one byte spare"


def make(tier, seed):
    out = []
    A = [("float", "f64"), ("f32", "double")]
    for i, (a, b) in enumerate(A):
        mk = lambda: [I(a, "x"), I(b, "y")]
        out += contexts("plain%d" % i, mk, 12, which="tsaiwb" if tier != "quick" or i == 0 else "t")
        for ov in ("be", "le", "BE", "LE") if tier != "quick" or i else ("be", "LE"):
            out += contexts("ov-%s%d" % (ov, i), lambda: [I(a, "x", ov), I(b, "y"), I(a, "x2"), I(b, "y2", ov)], 24, which="ts" if tier != "quick" else "t")
    for pre in ("", "@big_endian"):
        for t in ("float", "double"):
            n = T[t][1]
            for kd in (("fix", 2), ("pre", "uint8"), ("eof",)):
                sz = 2 * n + (kd[0] == "pre")
                out += jobs("arr-%s-%s%s" % (t, kd[0], "-be" if pre else ""), Packet([Arr(t, "v", kd)], pre=pre), sz, lo=sz if kd[0] != "eof" else 0)
    return out
