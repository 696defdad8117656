from gen import *
TITLE = "switch selects exactly the case equal to the discriminator, else default"
BOUNDS = {"quick": "all discriminator values of every integer type; 0..9 cases, sparse, dense, negative, 64-bit and enum-named labels; nested switches, in structs, arrays and branches; both modes and orders", "thorough": "up to 24 cases"}
VT = ["uint8", "uint16", "uint32", "int8", "int16", "uint64"]


def mkcases(vals, names=None):
    return [((names[i] if names else str(v)), v, [I(VT[i % 6], "c%d" % i)] if i % 4 != 3 else ([I("uint8", "c%d" % i), I("uint16", "d%d" % i)] if i % 8 == 3 else [])) for i, v in enumerate(vals)]


def make(tier, seed):
    out = []
    q = tier == "quick"
    Z = lambda: I("uint16", "zz")
    sets = [("one", [5]), ("two", [1, 200]), ("three", [0, 1, 2]), ("dense4", [0, 1, 2, 3]), ("dense-off", [10, 11, 12, 13, 14]), ("holes", [3, 5, 9, 20, 4]), ("unsorted", [7, 2, 5, 3, 6, 1]), ("edge", [0, 255, 128, 127]), ("nine", [1, 2, 3, 4, 5, 6, 7, 8, 9])]
    if not q:
        sets += [("many", list(range(30, 54))), ("spread", [i * 10 for i in range(20)])]
    for nm, vs in sets:
        for d in (0, 1):
            for pre in ("", "@big_endian"):
                if q and pre and d:
                    continue
                out += jobs("u8-%s%s%s" % (nm, "-default" if d else "", pre[:2]), Packet([I("uint8", "k"), Sw("k", mkcases(vs), [I("uint8", "df"), I("uint8", "df2")] if d else None), Z()], pre=pre), 11, lo=3 if d else 10)
    wide = {"uint16": [(0, 65535, 256, 255), (1000, 1001, 1002, 1003, 1010)], "uint32": [(0, 0xFFFFFFFF, 0x80000000, 1), (0x10000, 0x10001, 0x10002, 0x10003), (5, 6, 7, 8, 0xFFFFFFFF)], "uint64": [(0, 1, 2, 3), (0x100000000, 0x100000001, 0x100000002, 0x100000003, 0), (2 ** 64 - 1, 2 ** 63, 1), (2 ** 32, 0, 2 ** 33, 1)],
            "int8": [(-1, 0, 1, -128, 127), (-4, -3, -2, -1), (-2, -1, 0, 1, 2)], "int16": [(-1, 1, -300, 300), (-100, -99, -98, -97, -95)], "int32": [(-1, 0, 2147483647, -2147483648), (-3, -2, -1, 0, 3)], "int64": [(-1, 0, 1, 2), (-2 ** 63, 2 ** 63 - 1, -5, 5), (-1, -2, -3, -4, -5)]}
    for t, ss in wide.items():
        for i, vs in enumerate(ss):
            n = T[t][1]
            out += jobs("%s-%d" % (t, i), Packet([I(t, "k"), Sw("k", mkcases(vs), [I("uint8", "df"), I("uint8", "df2"), I("uint8", "df3")]), Z()], pre=("", "@big_endian")[i % 2]), n + 10, lo=n + 5)
            if not q:
                out += jobs("%s-%d-nodef" % (t, i), Packet([I(t, "k"), Sw("k", mkcases(vs)), Z()], pre=("", "@big_endian")[1 - i % 2]), n + 10, lo=n + 2)
    # other label forms
    out += jobs("hex", Packet([I("uint16", "k"), Sw("k", mkcases([0x10, 0xFF, 0xABCD], ["0x10", "0xff", "0xABCD"])), Z()]), 9, lo=4)
    E = Enum("Kind", "uint8", [("A", 1), ("B", None), ("C", 10), ("D", None)])
    G = Enum("Neg", "int16", [("X", -5), ("Y", None), ("W", 300)])
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        P = lambda ns, ds=(): Packet(ns + [Z()], ds, pre=pre)
        out += jobs("enum" + b, P([En(E, "k"), Sw("k", mkcases([1, 2, 10, 11], ["Kind.A", "Kind.B", "Kind.C", "Kind.D"]))], [E]), 9, lo=3)
        out += jobs("enum-part" + b, P([En(E, "k"), Sw("k", mkcases([10, 1], ["Kind.C", "Kind.A"]), [I("uint32", "df")])], [E]), 8, lo=3)
        out += jobs("enum-neg" + b, P([En(G, "k"), Sw("k", mkcases([-5, 300, -4], ["Neg.X", "Neg.W", "Neg.Y"]), [I("uint32", "df")])], [G]), 9, lo=5)
        inner = lambda p: Sw("j", [("1", 1, [I("uint8", p + "1")]), ("2", 2, [I("uint16", p + "2")]), ("3", 3, []), ("4", 4, [I("uint32", p + "4")]), ("5", 5, [I("uint8", p + "5"), I("uint8", p + "6")])], [I("uint16", p + "d")])
        out += jobs("nested" + b, P([I("uint8", "k"), I("uint8", "j"), Sw("k", [("0", 0, [inner("a"), I("uint8", "ta")]), ("1", 1, [I("uint8", "b0"), inner("b")]), ("7", 7, [Sw("j", [("1", 1, [I("uint8", "ca")])]), I("uint8", "tc")])], [inner("d")])]), 10, lo=4 if not q else 8, modes="ed" if not q else "d")
        out += jobs("nested-enc" + b, P([I("uint8", "k"), I("uint8", "j"), Sw("k", [("0", 0, [Sw("j", [("1", 1, [I("uint8", "a1")]), ("2", 2, []), ("3", 3, [I("uint16", "a3")]), ("4", 4, [I("uint8", "a4")])], [I("uint16", "ad")]), I("uint8", "ta")]), ("7", 7, [I("uint8", "b0"), Sw("j", [("1", 1, [I("uint8", "ca")])]), I("uint8", "tc")])], [Sw("j", [("9", 9, [I("uint8", "d9")])], [I("uint16", "dd")])])]), 8, lo=6, modes="e")
        out += jobs("nested-dense" + b, P([I("uint8", "k"), I("uint8", "j"), Sw("k", [(str(i), i, [inner("n%d" % i)] if i % 2 else [I("uint8", "m%d" % i)]) for i in range(5)])]), 9, lo=3)
        S = Struct("S", [I("uint8", "k"), Sw("k", mkcases([1, 2, 3, 4, 9]), [I("uint16", "df")]), I("uint8", "e")])
        out += jobs("struct" + b, P([St(S, "s"), St(S, "t")], [S]), 16, lo=8, time=200)
        out += jobs("array" + b, P([Arr(S, "s", ("fix", 2))], [S]), 14, lo=8, time=200)
        out += jobs("branch" + b, P([I("uint8", "k"), If("k > 2", "v_k > 2", [Sw("k", mkcases([3, 4, 5, 6]), [I("uint8", "df")])], [Sw("k", [("0", 0, [I("uint8", "z0")]), ("1", 1, [If("k == 1", "v_k == 1", [I("uint16", "z1")])])])]), I("uint8", "y")]), 9, lo=4)
        out += jobs("kinds" + b, P([I("uint8", "k"), Sw("k", [("0", 0, [Arr("uint8", "v", ("pre", "uint8"))]), ("1", 1, [StrZ("s", 2)]), ("2", 2, [I("uint8", "w", width=3), Fill()]), ("3", 3, [Con("uint16", "m", "0x1234", 0x1234)]), ("4", 4, [En(E, "e")]), ("5", 5, [Crc(16, "c")]), ("6", 6, [I("uint8", "r", deco="@range(3, 9)", post="v >= 3 && v <= 9")]), ("7", 7, [Ex("uint16", "x", "k * 5", "v_k * 5")])], [Arr("uint16", "h", ("fix", 2))])], [E]), 7, lo=3, time=200)
        out += jobs("bits" + b, P([I("uint8", "k", width=3), Sw("k", [("1", 1, [I("uint8", "x", width=5)]), ("2", 2, [I("uint8", "y", width=2)]), ("7", 7, [I("uint8", "w", width=8)])]), I("uint8", "t", width=3)]), 5, lo=3)
    # any text order of the cases, default anywhere
    out.append(Job("default-first", None, group="comp", must=["ok"], params=[1, 3, 5, 0], text=Tdef("default: { uint8 df; } case 1: { uint16 a; } case 4: { uint8 b; uint16 c; }")))
    out.append(Job("default-mid", None, group="comp", must=["ok"], params=[1, 3, 5, 0], text=Tdef("case 1: { uint16 a; } default: { uint8 df; } case 4: { uint8 b; uint16 c; }")))
    out.append(Job("single-fields", None, group="comp", must=["ok"], params=[1, 3, 5, 0], text=Tdef("case 1: uint16 a; case 4: { uint8 b; uint16 c; } default: uint8 df;")))
    return out


def Tdef(body):
    pk = Packet([I("uint8", "k"), Sw("k", [("1", 1, [I("uint16", "a")]), ("4", 4, [I("uint8", "b"), I("uint16", "c")])], [I("uint8", "df")]), I("uint16", "zz")])
    t = text(pk)
    a = t.index("static const char SRC"); b = t.index("\n", a)
    return t[:a] + "static const char SRC[] = " + cstr("packet P { uint8 k; switch (k) { %s } uint16 zz; }" % body) + ";" + t[b:]
