from gen import *
TITLE = "Optional trailing fields may be absent; nothing else may"
BOUNDS = {"quick": "every field kind the compiler accepts @optional on; every cut point of the message from empty to complete; all contents; optional fields last, in a row, and in front of required fields; top level, structs, arrays, branches", "thorough": "the same with longer runs of optional fields"}


def make(tier, seed):
    out = []
    q = tier == "quick"
    E = Enum("E", "uint16", [("A", 1), ("B", 300)])
    kinds = []
    for t in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "bool"):
        kinds.append((t, lambda p, t=t: [Opt(I(t, p))], T[t][1], ()))
    kinds += [
        ("range", lambda p: [I("uint16", p, deco="@range(5, 900)", post="v >= 5 && v <= 900", opt=True)], 2, ()),
        ("range-signed", lambda p: [I("int8", p, deco="@range(-3, -1)", post="v >= -3 && v <= -1", opt=True)], 1, ()),
        ("add", lambda p: [Opt(Tr("uint16", p, "+", 7))], 2, ()),
        ("mul", lambda p: [Opt(Tr("int32", p, "*", 10))], 4, ()),
        ("scale", lambda p: [Opt(Cv("uint8", p, "scale", [2, 10]))], 1, ()),
        ("enum", lambda p: [Opt(En(E, p))], 2, [E]),
        ("be", lambda p: [Opt(I("uint16", p, ov="be"))], 2, ()),
        ("strz", lambda p: [Opt(StrZ(p, 2))], 3, ()),
        ("strp", lambda p: [Opt(StrP(p, "uint8"))], 3, ()),
        ("strp16", lambda p: [Opt(StrP(p, "uint16"))], 4, ()),
        ("arr8", lambda p: [Opt(Arr("uint8", p, ("pre", "uint8")))], 3, ()),
        ("arr16", lambda p: [Opt(Arr("uint16", p, ("pre", "uint16")))], 6, ()),
        ("bits", lambda p: [I("uint8", p, width=5, opt=True)], 1, ()),
        ("bits-signed", lambda p: [I("int16", p, width=11, opt=True)], 2, ()),
        ("eof", lambda p: [Opt(Arr("uint8", p, ("eof",)))], 2, ()),
    ]
    for nm, mk, n, defs in kinds:
        cs = dict(defs=["-DCONCSTR", "-DCNTMAX=2"])
        for pre in ("", "@big_endian"):
            b = "-be" if pre else ""
            P = lambda ns, ds=(): Packet(ns, list(defs) + list(ds), pre=pre)
            out += jobs("last-%s%s" % (nm, b), P([I("uint16", "h")] + mk("o")), n + 3, lo=0, modes="d", **cs)
            if nm != "eof":
                out += jobs("then-required-%s%s" % (nm, b), P([I("uint8", "h")] + mk("o") + [I("uint16", "zz")]), n + 4, lo=0, modes="d", **cs)
                out += jobs("row-%s%s" % (nm, b), P([I("uint8", "h")] + mk("o") + mk("o2") + [Opt(I("uint32", "o3"))]), 2 * n + 6, lo=0, modes="d", **cs)
                if not q or not pre:
                    out += jobs("then-checked-%s%s" % (nm, b), P([I("uint8", "h")] + mk("o") + [I("uint8", "r", deco="@range(3, 9)", post="v >= 3 && v <= 9"), Tr("uint8", "s", "+", 1), Con("uint8", "c", "7", 7)]), n + 4, lo=0, modes="d", **cs)
            m = {"strz": 0, "strp": 0, "strp16": 0, "arr8": 1, "arr16": 2}.get(nm, n)
            if nm != "eof":
                out += jobs("written-%s%s" % (nm, b), P([I("uint8", "h")] + mk("o") + [I("uint8", "t", width=3)] if nm[:4] == "bits" else [I("uint8", "h")] + mk("o") + [I("uint8", "zz")]), n + 4, lo=n + (2 if m == n else 4), modes="e", **cs)
        if nm in ("uint16", "int32", "bool", "double", "enum", "strz", "arr8", "bits", "range"):
            S = Struct("S", [I("uint8", "a")] + mk("o"))
            P = lambda ns, ds=(): Packet(ns, list(defs) + list(ds))
            out += jobs("struct-%s" % nm, P([St(S, "s")], [S]), n + 2, lo=0, modes="d", **cs)
            out += jobs("struct-then-%s" % nm, P([St(S, "s"), I("uint8", "z")], [S]), n + 3, lo=0, modes="d", **cs)
            out += jobs("branch-%s" % nm, P([I("uint8", "k"), If("k > 9", "v_k > 9", mk("o"), [I("uint16", "r")])]), n + 2, lo=0, modes="d", **cs)
            out += jobs("branch-then-%s" % nm, P([I("uint8", "k"), If("k > 9", "v_k > 9", mk("o")), I("uint16", "r")]), n + 4, lo=0, modes="d", **cs)
            out += jobs("array-%s" % nm, P([Arr(S, "s", ("fix", 2))], [S]), 2 * n + 3, lo=0, modes="d", **cs)
            out += jobs("switch-%s" % nm, P([I("uint8", "k"), Sw("k", [("1", 1, mk("o")), ("2", 2, [I("uint8", "r")])]), Opt(I("uint8", "l"))]), n + 3, lo=0, modes="d", **cs)
    # only the marked field: every required kind after it and before it must be complete
    req = [("uint32", [I("uint32", "r")], 4), ("bits", [I("uint16", "r", width=12)], 2), ("pad", [I("uint8", "w", width=3), Pad(13)], 2), ("const", [Con("uint16", "c", "1", 1)], 2), ("crc", [Crc(16, "c")], 2), ("strp", [StrP("s", "uint16")], 2), ("strz", [StrZ("s", 2)], 1), ("arr", [Arr("uint16", "v", ("fix", 2))], 4), ("pre", [Arr("uint16", "v", ("pre", "uint16"))], 4), ("expr", [Ex("uint16", "e", "h + 1", "v_h + 1")], 2), ("float", [I("double", "r")], 8), ("enum", [En(E, "r")], 2), ("bool", [I("bool", "b")], 1), ("tr", [Tr("uint32", "r", "+", 1)], 4)]
    for nm, ns, n in req:
        for o in ("uint16", "float", "bool") if not q else ("uint16",):
            out += jobs("required-after-%s-%s" % (o, nm), Packet([I("uint8", "h"), Opt(I(o, "o"))] + ns, [E] if nm == "enum" else []), n + 8, lo=0, modes="d", defs=["-DCONCSTR", "-DCNTMAX=2"])
            out += jobs("required-before-%s-%s" % (o, nm), Packet([I("uint8", "h")] + ns + [Opt(I(o, "o"))], [E] if nm == "enum" else []), n + 8, lo=0, modes="d", defs=["-DCONCSTR", "-DCNTMAX=2"])
    return out
