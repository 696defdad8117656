from gen import *
TITLE = "Structs, imports and nesting keep layout and give every field its own name"
BOUNDS = "corpus with every field kind and decorator inside nested, repeated, imported and packet-level structs; all values, both orders and modes"


def rich(name, extra=()):
    E = Enum("Kind", "uint8", [("A", 1), ("B", 7)])
    return E, Struct(name, [I("uint8", "a", deco="@range(1, 250)", post="v >= 1 && v <= 250"), En(E, "k"), Con("uint16", "magic", "0xBEEF", 0xBEEF), Tr("int16", "t", "+", 5), I("bool", "f")] + list(extra))


def make(tier, seed):
    out = []
    q = tier == "quick"
    pres = ("", "@big_endian")
    for pre in pres:
        b = "-be" if pre else ""
        In = Struct("In", [I("uint16", "x"), I("int8", "y")])
        Mid = Struct("Mid", [I("uint8", "x"), St(In, "in"), St(In, "in2"), I("uint32", "y")])
        out += jobs("two-uses" + b, Packet([St(In, "a"), St(In, "b"), St(Mid, "c"), I("uint16", "x")], [In, Mid], pre=pre), 20, lo=19)
        out += jobs("arrays" + b, Packet([Arr(In, "a", ("fix", 2)), Arr(Mid, "m", ("pre", "uint8")), St(In, "b"), I("uint8", "x")], [In, Mid], pre=pre), 22 if q else 30, lo=21)
        E, R = rich("R")
        out += jobs("rich" + b, Packet([I("uint8", "q"), St(R, "r"), St(R, "s"), I("uint16", "z")], [E, R], pre=pre), 18, lo=17)
        W = Struct("W", [St(R, "r"), I("uint8", "w")])
        out += jobs("rich-nested" + b, Packet([St(W, "p"), St(W, "q")], [E, R, W], pre=pre), 17, lo=16)
        # expressions, conditions, switches, counted arrays and strings refer to the fields of their own struct
        X = Struct("X", [I("uint8", "n", deco="@range(0, 2)", post="v <= 2"), Arr("uint8", "v", ("ref", "n")), If("n == 1", "$Pv_n == 1", [I("uint16", "one")], [I("uint8", "other")]), Sw("n", [("0", 0, [I("uint8", "c0")]), ("2", 2, [StrZ("c2", 2)])]), Ex("uint16", "e", "n * 3 + 1", "(uint16_t)($Pv_n * 3 + 1)")])
        out += jobs("refs" + b, Packet([St(X, "a"), St(X, "b")], [X], pre=pre), 18 if q else 20, lo=18, time=500)
        X = Struct("X", X.nodes + [StrP("p")])
        out += jobs("refs-str" + b, Packet([I("uint8", "n"), St(X, "b")], [X], pre=pre), 12 if q else 14, lo=12, defs=["-DCONCSTR"], time=500)
        Y = Struct("Y", [St(X, "x"), I("uint8", "n")])
        out += jobs("refs-deep" + b, Packet([I("uint8", "n"), St(Y, "y")], [X, Y], pre=pre), 12, lo=11, time=400, defs=["-DCONCSTR"])
        SW = Struct("SW", [I("uint8", "t"), Sw("t", [("1", 1, [I("uint8", "a")]), ("2", 2, [I("uint16", "b")]), ("3", 3, [Con("uint8", "c", "9", 9)]), ("4", 4, [I("int32", "d")])], [I("uint8", "z")])])
        out += jobs("table-in-struct" + b, Packet([St(SW, "a"), St(SW, "b"), I("uint8", "t")], [SW], pre=pre), 11, lo=5)
        C = Struct("C", [Cv("int16", "sc", "scale", [0.5, 2]), Cv("uint8", "po", "poly", [1.5, 2.0]), Tr("uint32", "mu", "*", 3)])
        out += jobs("curves" + b, Packet([St(C, "a"), I("uint8", "q"), St(C, "b")], [C], pre=pre), 15, lo=15, modes="d")
        BF = Struct("BF", [I("uint8", "a", width=3), I("int16", "b", width=13), I("bool", "c", width=1), Raw("@pad(7);", "PAD(7, $BE);")])
        out += jobs("bits" + b, Packet([St(BF, "m"), St(BF, "n")], [BF], pre=pre), 6, lo=5)
        CR = Struct("CR", [I("uint8", "a"), Crc(16, "c"), I("uint8", "o")])
        out += jobs("crc" + b, Packet([St(CR, "m"), St(CR, "n")], [CR], pre=pre), 8, lo=8)
        OP = Struct("OP", [I("uint8", "a"), I("uint16", "o", opt=True)])
        out += jobs("optional" + b, Packet([I("uint8", "h"), St(OP, "m")], [OP], pre=pre), 4, lo=1)
        # the struct's byte order overrides and the user's byte order
        OV_ = Struct("OV", [I("uint16", "a"), I("uint16", "b", "be"), I("uint16", "c", "le"), I("uint16", "d")])
        out += jobs("orders" + b, Packet([St(OV_, "m"), St(OV_, "n", "be"), St(OV_, "o", "le"), I("uint16", "z"), Arr(OV_, "v", ("fix", 1), "be"), I("uint16", "y")], [OV_], pre=pre), 37, lo=36)
        # packet = struct
        out += jobs("alias" + b, AliasPacket(R, [E, R], pre), 8, lo=7)
        out += jobs("alias2" + b, AliasPacket(Mid, [In, Mid], pre), 12, lo=11)
        # imports
        out += jobs("import" + b, ImpPacket([I("uint8", "q"), St(In, "a"), St(Mid, "c"), I("uint16", "x")], ['@import("lib/m.cnd")'], pre), 18, lo=17, files=[("lib/m.cnd", In.src + " " + Mid.src)])
        out += jobs("import-nested" + b, ImpPacket([I("uint8", "q"), St(In, "a"), St(Mid, "c"), I("uint16", "x")], ['@import("lib/m.cnd")', '@import("lib/in.cnd")'], pre), 18, lo=17, files=[("lib/m.cnd", '@import("in.cnd") ' + Mid.src), ("lib/in.cnd", In.src)])
        out += jobs("import-rich" + b, ImpPacket([St(R, "r"), St(R, "s")], ['@import("r.cnd")'], pre), 16, lo=15, files=[("r.cnd", "/// doc\n" + E.src + "\n" + R.src)])
    # every path has its own name
    E, R = rich("R")
    W = Struct("W", [St(R, "r"), St(R, "s"), I("uint8", "a")])
    src = Packet([St(W, "p"), St(W, "q"), Arr(W, "v", ("fix", 2)), I("uint8", "a")], [E, R, W]).src
    names = [x + "." + y for x in ("p", "q", "v") for y in ("r", "s", "a")] + ["%s.%s.%s" % (x, y, z) for x in ("p", "q", "v") for y in ("r", "s") for z in ("a", "k", "magic", "t", "f")] + ["a", "p", "q", "v"]
    out.append(Job("names", None, group="comp", must=["ok"], text='#include "codec.h"\nstatic const char* N[] = {%s};\n' % ", ".join('"%s"' % n for n in names) + r'''
void harness(void) {
  csx_assert(cd_compile(%s) == 0, "a valid schema is rejected");
  csx_assert(cd_load() == 0, "the compiled image does not load");
  int n = sizeof N / sizeof *N; uint16_t k[64];
  for (int i = 0; i < n; i++) { k[i] = K(N[i]); const char* s = cnd_get_key_name(&csxh_prog, k[i]); csx_assert(s && !strcmp(s, N[i]), "a field's name is wrong"); for (int j = 0; j < i; j++) csx_assert(k[i] != k[j], "two fields share a name"); }
  csx_reach("ok");
}''' % cstr(src)))
    return out


class AliasPacket(Packet):
    def __init__(self, s, defs, pre):
        Packet.__init__(self, s.nodes, defs, pre=pre)
        self.s = s

    @property
    def src(self):
        return "%s%s packet P = %s;" % ("".join(d.src + " " for d in self.defs), self.pre, self.s.name)


class ImpPacket(Packet):
    def __init__(self, nodes, imports, pre):
        Packet.__init__(self, nodes, (), pre=pre)
        self.head = "\n".join(imports) + "\n"
