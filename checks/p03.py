from gen import *
TITLE = "Integer and bool fields have exactly the declared width, sign and byte order"
BOUNDS = {"quick": "every integer and bool type and alias, both packet byte orders, per-field overrides, all surrounding contexts; all values and messages from one byte short to one byte spare", "thorough": "the same with all spellings of the packet byte order for every group"}


def make(tier, seed):
    out = []
    groups = [["uint8", "int16", "uint32", "int64", "bool"], ["byte", "uint16", "int32", "uint64"], ["u8", "i16", "u32", "i64"], ["i8", "u16", "i32", "u64"], ["int8", "bool", "uint64", "bool"]]
    for gi, g in enumerate(groups):
        for pre in ("", "@big_endian", "@be", "@little_endian", "@le") if tier != "quick" or gi == 0 else ("", "@big_endian"):
            ns = [I(t, "f%d" % i) for i, t in enumerate(g)]
            n = sum(T[t][1] for t in g)
            out += jobs("plain%d%s" % (gi, pre), Packet(ns, pre=pre), n + 1)
    # per-field overrides touch only that field
    for pre in ("", "@big_endian"):
        for ov in ("be", "le", "BE", "LE"):
            ns = [I("uint16", "a"), I("uint16", "b", ov), I("uint32", "c"), I("int32", "d", ov), I("int16", "e")]
            out += jobs("override-%s%s" % (ov, pre), Packet(ns, pre=pre), 14, lo=12)
    s = Struct("S", [I("uint16", "x"), I("int32", "y", "be"), I("uint16", "z")])
    for pre in ("", "@big_endian"):
        out += jobs("struct%s" % pre, Packet([I("uint16", "a"), St(s, "s"), I("uint16", "b")], [s], pre=pre), 12, lo=11)
        out += jobs("struct-ov%s" % pre, Packet([I("uint16", "a"), St(Struct("Q", [I("uint16", "x"), I("int32", "y")]), "s", "be"), I("uint16", "b")], [Struct("Q", [I("uint16", "x"), I("int32", "y")])], pre=pre), 10, lo=9)
        out += jobs("array%s" % pre, Packet([Arr("uint16", "a", ("fix", 2)), Arr("int32", "b", ("fix", 2), "be"), I("uint16", "c")], pre=pre), 14, lo=13)
    out += jobs("afterbits", Packet([I("uint8", "a", width=3), I("uint16", "b", "be"), I("uint8", "c", width=9 - 1), I("int64", "d")]), 13, lo=11)
    return out


