from gen import *
TITLE = "Enum validation accepts exactly the listed values"
BOUNDS = "all values of the underlying type; enums with explicit, automatic, negative, extreme and many enumerators over every underlying type, in every context"


def make(tier, seed):
    out = []
    q = tier == "quick"
    for t in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", None):
        op, n, s = T[t or "uint32"]
        mx, mn = ((1 << (8 * n - 1)) - 1, -(1 << (8 * n - 1))) if s else ((1 << (8 * n)) - 1, 0)
        sets = [("auto", [("A", None), ("B", None), ("C", None)]), ("mixed", [("A", 5), ("B", None), ("C", 20), ("D", None), ("E", 3)]), ("ends", [("A", mn), ("B", mx), ("C", 100)]), ("one", [("A", 77)])]
        if s:
            sets += [("neg", [("A", -3), ("B", None), ("C", None), ("D", None), ("E", None)]), ("neg2", [("A", -1), ("B", -128), ("C", 127)])]
        if n > 1:
            sets += [("wide", [("A", 0x102), ("B", 0x201), ("C", mx // 3)])]
        if q and t and len(t) <= 3:
            sets = sets[1:2]
        for i, (nm, it) in enumerate(sets):
            E = Enum("E", t, it)
            for pre in ("", "@big_endian"):
                out += jobs("%s-%s%s" % (t, nm, "-be" if pre else ""), Packet([I("uint8", "h"), En(E, "e", (None, "be", "le")[i % 3]), I("uint16", "z"), En(E, "f")], [E], pre=pre), 2 * n + 4, lo=2 * n + 2 if q else 0, must=["ok", "invalid"])
    many = Enum("M", "uint8", [("V%d" % i, (i * 7) % 251) for i in range(60 if q else 200)])
    out += jobs("many", Packet([En(many, "e"), I("uint8", "z")], [many]), 2, must=["ok", "invalid"])
    E = Enum("E", "uint16", [("A", 1), ("B", 258), ("C", 513), ("D", None)])
    F = Enum("F", "int8", [("N", -2), ("Z", None), ("Y", None)])
    mk = lambda: [En(E, "k"), I("uint8", "m"), En(F, "l"), En(E, "j", "be")]
    out += contexts("ctx", mk, 6, [E, F], must=["ok", "invalid"])
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        out += jobs("elements" + b, Packet([Arr(E, "v", ("pre", "uint8")), Arr(F, "w", ("fix", 2)), I("uint8", "z")], [E, F], pre=pre), 8, lo=3, raw=1, must=["ok", "invalid"])
        # enums steer ifs and switches by name
        out += jobs("names" + b, Packet([En(E, "k"), If("k == E.B", "$Pv_k == 258", [I("uint8", "b")]), Sw("k", [("E.A", 1, [I("uint8", "a")]), ("E.C", 513, [I("uint16", "c")])], [I("uint8", "d")]), En(F, "f"), I("uint8", "z")], [E, F], pre=pre), 8, lo=3, must=["ok", "invalid"]) if 0 else []
        out += jobs("switch" + b, Packet([En(E, "k"), Sw("k", [("1", 1, [I("uint8", "a")]), ("513", 513, [I("uint16", "c")])], [I("uint8", "d")]), En(F, "f"), I("uint8", "z")], [E, F], pre=pre), 7, lo=3, must=["ok", "invalid"])
        # imported and after another enum with the same enumerator names
        G = Enum("G", "uint8", [("A", 9), ("B", 7)])
        out += jobs("two" + b, Packet([En(G, "g"), En(E, "e"), En(G, "h"), I("uint8", "z")], [E, G], pre=pre), 5, lo=4, must=["ok", "invalid"])
    return out
