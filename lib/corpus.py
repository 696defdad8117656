"""Small schemas which together use every kind of field."""
from gen import *


def corpus(q):
    E = Enum("E", "uint16", [("A", 1), ("B", 300)])
    S = Struct("S", [I("uint8", "a"), I("int16", "b")])
    B = Struct("B", [I("uint8", "x", width=3), I("int8", "y", width=4), I("bool", "f")], pre="@unaligned_bytes")
    N = Struct("N", [St(S, "s"), Arr("uint16", "v", ("fix", 2))])
    for t in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "bool"):
        yield t, Packet([I("uint8", "h"), I(t, "m"), I("uint16", "z")]), 3 + T[t][1]
    yield "bits", Packet([I("uint8", "h", width=3), I("int8", "m", width=4), I("uint16", "w", width=12), Fill(), I("uint8", "z")]), 4
    yield "bits-be", Packet([I("uint8", "h", width=3), I("int8", "m", width=4), I("uint16", "w", width=12), Pad(5), I("uint8", "z")], pre="@big_endian"), 4
    yield "unaligned", Packet([St(B, "b"), St(B, "c"), I("uint8", "z")], [B]), 3
    yield "strings", Packet([I("uint8", "h"), StrZ("s", 2), StrP("t", "uint8"), StrP("u", "uint16"), StrP("v", "uint32"), I("uint8", "z")]), 14
    yield "fixed", Packet([I("uint8", "h"), Arr("uint16", "v", ("fix", 2)), Arr("uint8", "w", ("fix", 3)), I("uint8", "z")]), 9
    yield "prefixed", Packet([Arr("uint16", "v", ("pre", "uint8")), Arr("uint8", "w", ("pre", "uint16")), Arr("int32", "x", ("pre", "uint32")), I("uint8", "z")]), 19
    yield "counted", Packet([I("uint8", "n", deco="@range(0, 2)", post="v <= 2"), Arr("uint16", "v", ("ref", "n")), Arr("uint8", "w", ("ref", "n")), I("uint8", "z")]), 8
    yield "eof", Packet([I("uint8", "h"), Arr("uint16", "v", ("eof",))]), 5
    yield "structs", Packet([St(N, "n"), Arr(S, "t", ("pre", "uint8")), I("uint8", "z")], [S, N]), 15
    yield "const", Packet([Con("uint16", "c", "0x1234", 0x1234), I("uint8", "a"), Con("uint8", "d", "7", 7), I("uint8", "z")]), 5
    yield "range", Packet([I("uint16", "r", deco="@range(5, 900)", post="v >= 5 && v <= 900"), I("uint8", "z")]), 3
    yield "enum", Packet([En(E, "e"), I("uint8", "z")], [E]), 3
    yield "transforms", Packet([Tr("uint16", "a", "+", 7), Tr("int32", "b", "*", 10), Cv("uint8", "c", "scale", [2, 10]), I("uint8", "z")]), 8
    yield "curves", Packet([Cv("uint8", "c", "spline", [0, 0, 100, 200]), I("uint8", "z")]), 2
    yield "curves-f", Packet([Cv("float", "c", "scale", [2, 10]), Cv("double", "d", "offset", [1]), I("uint8", "z")]), 13
    yield "expr", Packet([I("uint8", "a"), Ex("uint16", "e", "a * 3", "v_a * 3"), I("uint8", "z"), Ex("uint8", "f", "a + z", "v_a + v_z")]), 5
    yield "branches", Packet([I("uint8", "k"), If("k > 3", "v_k > 3", [I("uint16", "t"), I("uint8", "t2")], [I("uint8", "e")]), I("uint8", "z")]), 5
    yield "switch", Packet([I("uint8", "k"), Sw("k", [("1", 1, [I("uint16", "t"), I("uint8", "t2")]), ("2", 2, []), ("3", 3, [I("uint8", "u")]), ("4", 4, [StrZ("s", 1)])], [I("uint8", "e")]), I("uint8", "z")]), 5
    yield "crc", Packet([I("uint16", "a"), Crc(16, "c"), I("uint8", "z"), Crc(32, "d")]), 9
    yield "optional", Packet([I("uint8", "a"), Opt(I("uint16", "o")), Opt(I("uint8", "b", width=3)), Opt(I("bool", "p"))]), 5
