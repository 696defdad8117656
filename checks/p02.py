from gen import *
from corpus import corpus
import copy
TITLE = "Truncated data and short buffers are always reported, never accepted"
BOUNDS = {"quick": "a schema corpus using every field kind; every cut point / buffer size from empty to complete plus one; all contents and host values; both modes and byte orders", "thorough": "the same nested in structs, arrays, branches and switches"}


def make(tier, seed):
    out = []
    q = tier == "quick"
    for nm, p, n in corpus(q):
        for pre in ("", "@big_endian"):
            if pre and p.pre:
                continue
            r = Packet(p.nodes, p.defs, pre=pre or p.pre)
            raw = int(nm == "fixed")
            slow = nm in ("strings", "prefixed")
            must = ["ok"] if nm in ("eof", "expr") else ["ok", "short"]
            kw = dict(raw=raw, defs=["-DCONCSTR"], time=400)
            if nm == "curves":
                kw["defs"] = kw["defs"] + ["-DSPECIALS=0,0x3ff0000000000000,0x4059000000000000"]
            out += jobs(nm + pre[:2], r, n + 1, lo=0, must=must, **kw)
            if raw:
                out += jobs(nm + pre[:2] + "/elements", r, n + 1, lo=0, must=must, **dict(kw, raw=0))
    # every kind of field as the last one, cut at every byte
    E = Enum("E", "int32", [("A", -1), ("B", 300)])
    S = Struct("S", [I("uint8", "a"), I("int16", "b", width=10), I("uint32", "c")])
    last = [("u32", [I("uint32", "x")], 4), ("i64be", [I("int64", "x", ov="be")], 8), ("double", [I("double", "x")], 8), ("bits20", [I("uint32", "x", width=20)], 3), ("bits64", [I("uint64", "p", width=1), I("uint64", "x", width=64)], 9), ("pad", [I("uint8", "p", width=2), Pad(30)], 4), ("pad200", [Pad(200)], 25), ("fill", [I("uint16", "p", width=11), Fill(1), I("uint8", "q")], 3),
            ("const32", [Con("uint32", "x", "0x01020304", 0x01020304)], 4), ("crc16", [Crc(16, "x")], 2), ("crc32", [Crc(32, "x")], 4), ("expr", [Ex("uint32", "x", "h + 1", "v_h + 1")], 4), ("exprf", None, 0), ("enum", [En(E, "x")], 4), ("range", [I("uint32", "x", deco="@range(0, 100)", post="v <= 100")], 4), ("tr", [Tr("int32", "x", "*", 3)], 4), ("cv", [Cv("uint16", "x", "scale", [2, 1])], 2), ("struct", [St(S, "x")], 7), ("array", [Arr(S, "x", ("fix", 2))], 14), ("arrpre", [Arr("uint32", "x", ("pre", "uint16"))], 10), ("strp", [StrP("x", "uint32")], 6), ("strz", [StrZ("x", 3)], 4), ("strarr", [Arr(("string", "uint8"), "x", ("fix", 2))], 4), ("boolarr", [Arr("bool", "x", ("fix", 3))], 3)]
    for nm, ns, n in last:
        if ns is None:
            continue
        for pre in ("", "@big_endian"):
            if q and pre and n % 2:
                continue
            defs = [d for d in (E, S) if any(d is getattr(x, "e", None) or d is getattr(x, "s", None) or d is getattr(x, "elem", None) for x in ns)]
            d = ["-DCONCSTR"] + (["-DSPECIALS=0,0x4059000000000000", "-DSPAT=1"] if nm == "cv" else [])
            out += jobs("last-%s%s" % (nm, pre[:2]), Packet([I("uint8", "h")] + ns, defs, pre=pre), n + 2, lo=0, must=["ok", "short"], defs=d, time=300)
            if not q:
                T_ = Struct("T", [I("uint8", "h")] + ns)
                out += jobs("in-array-%s%s" % (nm, pre[:2]), Packet([Arr(T_, "t", ("fix", 2))], defs + [T_], pre=pre), 2 * n + 3, lo=0, must=["ok", "short"], defs=d, time=300)
                out += jobs("in-branch-%s%s" % (nm, pre[:2]), Packet([I("uint8", "h"), If("h > 5", "v_h > 5", ns), Sw("h", [("1", 1, [I("uint32", "alt")])])], defs, pre=pre), n + 3, lo=0, must=["ok", "short"], defs=d, time=300)
    return out
