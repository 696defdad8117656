from gen import *
TITLE = "if/else selects exactly one branch by the condition's value"
BOUNDS = {"quick": "all values of the fields in conditions (8 to 64 bit), chains of up to 6 branches, nesting to 4 levels, in structs, arrays, switches and unaligned structs; both modes and orders", "thorough": "chains of 12 branches, nesting to 8 levels"}


def make(tier, seed):
    out = []
    q = tier == "quick"
    Z = lambda: I("uint16", "zz")
    conds = [("a > 7", "v_a > 7"), ("a >= 7", "v_a >= 7"), ("a < 7", "v_a < 7"), ("a <= 7", "v_a <= 7"), ("a == 7", "v_a == 7"), ("a != 7", "v_a != 7"), ("a", "v_a != 0"), ("!a", "v_a == 0"), ("a & 4", "(v_a & 4) != 0"), ("a % 3", "v_a % 3 != 0"), ("a > b", "v_a > v_b"), ("a == b && c", "v_a == v_b && v_c"), ("a > 3 || b > 200", "v_a > 3 || v_b > 200"),
             ("!(a > 3 && b < 5)", "!(v_a > 3 && v_b < 5)"), ("a + b > 300", "v_a + v_b > 300"), ("c == 0x100", "v_c == 256"), ("true", "1"), ("false", "0"), ("c", "v_c != 0"), ("(a | b) == 0", "(v_a | v_b) == 0"), ("a << 8 == c", "v_a << 8 == v_c"), ("-a == -b", "v_a == v_b"), ("~a & 1", "(v_a & 1) == 0"), ("c >= 1000 && c <= 2000 || !b", "(v_c >= 1000 && v_c <= 2000) || !v_b")]
    for i, (c, cc) in enumerate(conds):
        for be in ("", "@big_endian"):
            if q and be and i % 3:
                continue
            out += jobs("cond%d%s" % (i, be[:2]), Packet([I("uint8", "a"), I("uint8", "b"), I("uint16", "c"), If(c, cc, [I("uint32", "t")], [I("uint8", "e")]), Z()], pre=be), 10, lo=3)
            out += jobs("noelse%d%s" % (i, be[:2]), Packet([I("uint8", "a"), I("uint8", "b"), I("uint16", "c"), If(c, cc, [I("uint16", "t"), I("uint8", "u")]), Z()], pre=be), 9, lo=6)
    # conditions on every type of field
    for t in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "bool"):
        k = T[t][1]
        out += jobs("type-%s" % t, Packet([I(t, "a"), If("a == 1", "v_a == 1", [I("uint8", "t")], [If("a == 0", "v_a == 0", [I("uint16", "u")], [I("uint32", "w")])]), Z()], pre=("", "@big_endian")[k % 2]), k + 6, lo=k + 3)
        if T[t][2] == 1:
            out += jobs("neg-%s" % t, Packet([I(t, "a"), If("a == -1", "(int64_t)v_a == -1", [I("uint8", "t")], [If("a == -100", "(int64_t)v_a == -100", [I("uint16", "u")])]), Z()]), k + 4, lo=k + 2)
    for w in (1, 3, 7, 12):
        out += jobs("bits-%d" % w, Packet([I("uint16", "a", width=w), If("a == 1", "v_a == 1", [I("uint8", "b", width=4)], [I("uint8", "c", width=9 if 0 else 2)]), Z()], pre=("", "@big_endian")[w % 2]), 5, lo=3)
    # every bit of a wide condition counts
    wide = [("d", "v_d != 0"), ("!d", "v_d == 0"), ("d & 0xFF00000000", "(v_d & 0xFF00000000ull) != 0"), ("d >> 33", "(v_d >> 33) != 0"), ("d == 0x100000000", "v_d == 0x100000000ull"), ("d - 1", "v_d != 1"), ("d * 0x100", "(v_d << 8) != 0"), ("-d", "v_d != 0"), ("d && 1", "v_d != 0"), ("d || 0", "v_d != 0"), ("!!d", "v_d != 0"), ("d > 0x7FFFFFFFFFFFFFFF", "v_d >> 63")]
    for i, (c, cc) in enumerate(wide):
        out += jobs("wide%d" % i, Packet([I(("uint64", "int64")[i % 2] if i < 4 else "uint64", "d"), If(c, cc, [I("uint8", "t")], [I("uint16", "e")]), Z()], pre=("", "@big_endian")[i % 2]), 12, lo=11)
    # chains
    n = 6 if q else 12
    def chain(i):
        return If("a == %d" % (i * 3), "v_a == %d" % (i * 3), [I("uint8", "b%d_%d" % (i, j)) for j in range(i % 3 + 1)], [chain(i + 1)] if i < n else [I("uint32", "last")])
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        out += jobs("chain" + b, Packet([I("uint8", "a"), chain(0), Z()], pre=pre), 8, lo=2)
        # nesting
        def nest(d, p):
            if d == 0:
                return [I("uint8", "n" + p)]
            return [If("a > %d" % (40 * d), "v_a > %d" % (40 * d), nest(d - 1, p + "t"), nest(d - 1, p + "e") + [I("uint8", "x" + p)]), I("uint8", "y" + p)]
        out += jobs("nest" + b, Packet([I("uint8", "a")] + nest(4 if q else 8, "") + [Z()], pre=pre), 14 if q else 20, lo=5)
        # two conditions
        out += jobs("cross" + b, Packet([I("uint8", "a"), If("a > 100", "v_a > 100", [I("uint8", "b"), If("b > a", "v_b > v_a", [I("uint16", "c")])], [I("int8", "d"), If("d == -1", "(int64_t)v_d == -1", [I("uint32", "e")], [I("uint8", "f")])]), If("a == 50", "v_a == 50", [I("uint16", "g")]), Z()], pre=pre), 12, lo=3)
        S = Struct("S", [I("uint8", "k"), If("k == 2", "$Pv_k == 2", [I("uint16", "x")], [If("k > 100", "$Pv_k > 100", [I("uint8", "y"), I("uint8", "y2")], [I("uint32", "w")])]), I("uint8", "e")])
        out += jobs("struct" + b, Packet([St(S, "s"), St(S, "t"), If("s.k == t.k", "v_s_k == v_t_k", [I("uint8", "same")]), Z()], [S], pre=pre), 15, lo=8)
        out += jobs("array" + b, Packet([Arr(S, "s", ("fix", 2)), If("s.k == 9", "v_s_k == 9", [I("uint8", "same")]), Z()], [S], pre=pre), 15, lo=8)
        out += jobs("prefixed" + b, Packet([Arr(S, "s", ("pre", "uint8")), Z()], [S], pre=pre), 12, lo=7, modes="ed")
        out += jobs("switch" + b, Packet([I("uint8", "k"), Sw("k", [("1", 1, [I("uint8", "q"), If("q > 9", "v_q > 9", [I("uint16", "r")], [I("uint8", "s")])]), ("2", 2, [If("k == 2", "v_k == 2", [I("uint8", "t")], [I("uint64", "never")])])], [If("k > 200", "v_k > 200", [I("uint32", "u")])]), Z()], pre=pre), 8, lo=3)
        out += jobs("branchkinds" + b, Packet([I("uint8", "k"), If("k & 1", "(v_k & 1) != 0", [Arr("uint8", "v", ("pre", "uint8")), StrZ("s", 2)], [I("uint8", "w", width=3), Pad(2), Fill(), Con("uint16", "m", "0x1234", 0x1234), Crc(16, "c"), I("int16", "tr")]), Z()], pre=pre), 10, lo=3, time=200)
        out += jobs("computed" + b, Packet([I("uint8", "k"), Ex("uint8", "d", "k * 2", "v_k * 2"), If("d > 100", "v_d > 100", [I("uint8", "p")], [I("uint16", "r")]), Z()], pre=pre), 7, lo=4)
        U = Struct("U", [I("uint8", "a", width=2), If("a == 1", "$Pv_a == 1", [I("uint8", "b", width=6)], [I("uint8", "c", width=4), I("uint8", "d", width=2)]), I("uint8", "e")], pre="@unaligned")
        out += jobs("unaligned" + b, Packet([St(U, "u"), Z()], [U], pre=pre), 5, lo=3) if 0 else []
    # floats
    out += jobs("float", Packet([I("uint8", "a"), If("float(a) * 0.5 > 12.25", "(double)v_a * 0.5 > 12.25", [I("uint16", "t")], [I("uint8", "e")]), Z()]), 5, lo=4)
    return out
