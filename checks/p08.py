from gen import *
TITLE = "Arrays iterate exactly the declared, prefixed, referenced or available count"
BOUNDS = {"quick": "counts 0..3 (every prefix/reference value on decode; buffer bounds the rest), nesting to 8 levels, both hosts (bulk bytes or per element), both orders", "thorough": "counts 0..5, all element types"}


def make(tier, seed):
    out = []
    q = tier == "quick"
    d = ["-DCNTMAX=%d" % (2 if q else 4)]
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        P = lambda ns, defs=(): Packet(ns + [I("uint16", "zz")], defs, pre=pre)
        for n in (0, 1, 2, 3):
            for raw in (0, 1):
                out += jobs("fix%d-bytes%s" % (n, b), P([Arr("uint8", "v", ("fix", n))]), n + 3, lo=0, raw=raw, defs=d)
            out += jobs("fix%d-u16%s" % (n, b), P([Arr("uint16", "v", ("fix", n))]), 2 * n + 3, lo=0, defs=d)
            out += jobs("count%d%s" % (n, b), P([Arr("int8", "v", ("count" if n % 2 else "len", n))]), n + 3, lo=n, raw=1, defs=d)
        for pt in ("uint8", "uint16", "uint32", "u8", "u16", "u32"):
            pn = T[pt][1]
            for raw in (0, 1):
                out += jobs("pre-%s-bytes%s" % (pt, b), P([Arr("uint8", "v", ("pre", pt))]), pn + 4, lo=0 if raw else pn, raw=raw, defs=d)
            if not q or len(pt) > 3:
                out += jobs("pre-%s-i32%s" % (pt, b), P([Arr("int32", "v", ("pre", pt))]), pn + 10, lo=pn + 9, defs=d)
        for ct in ("uint8", "uint16", "uint32") if not q else ("uint8", "uint32"):
            cn = T[ct][1]
            for kw in ("count", "len"):
                for raw in (0, 1):
                    out += jobs("ref-%s-%s%s" % (ct, kw, b), P([I(ct, "n", post="v <= 3"), Arr("byte", "v", ("ref", "n", kw))]), cn + 5, lo=cn, raw=raw, defs=d) if 0 else jobs("ref-%s-%s%s" % (ct, kw, b), P([I(ct, "n", deco="@range(0, 3)", post="v <= 3"), Arr("byte", "v", ("ref", "n", kw))]), cn + 5, lo=cn, raw=raw, defs=d)
            out += jobs("ref-%s-u16%s" % (ct, b), P([I(ct, "n", deco="@range(0, 3)", post="v <= 3"), Arr("uint16", "v", ("ref", "n"))]), cn + 8, lo=cn + 7, defs=d)
        # every value a count field can have, far beyond what fits
        for ct in ("uint64", "int64", "int8", "uint32", "uint16", "int32"):
            cn = T[ct][1]
            if q and b and cn != 8:
                continue
            for et in ("uint16", "uint8"):
                out += jobs("refany-%s-%s%s" % (ct, et, b), P([I(ct, "n"), Arr(et, "v", ("ref", "n"))]), cn + 5, lo=cn + 2, defs=d, raw=int(et == "uint8"))
        for t in ("uint8", "uint16", "float"):
            out += jobs("eof-%s%s" % (t, b), Packet([I("uint8", "h"), Arr(t, "v", ("eof",))], pre=pre), 2 + 2 * T[t][1], lo=0, defs=d)
        S = Struct("S", [I("uint8", "a"), Arr("uint8", "w", ("pre", "uint8")), I("int16", "b")])
        out += jobs("structs" + b, P([Arr(S, "s", ("pre", "uint8"))], [S]), 12 if q else 14, lo=10, defs=d, time=400)
        out += jobs("structs-fix" + b, P([Arr(S, "s", ("fix", 2)), I("uint8", "y")], [S]), 12, lo=10, defs=d, raw=1)
        I2 = Struct("I2", [Arr("uint16", "x", ("pre", "uint8"))])
        O2 = Struct("O2", [Arr(I2, "i", ("pre", "uint8")), I("uint8", "t")])
        out += jobs("nested" + b, P([Arr(O2, "o", ("fix", 2))], [I2, O2]), 9 if q else 12, lo=8, defs=d, time=400)
        out += jobs("eof-structs" + b, Packet([Arr(Struct("E", [I("uint8", "a"), Arr("uint8", "w", ("pre", "uint8"))]), "s", ("eof",))], [Struct("E", [I("uint8", "a"), Arr("uint8", "w", ("pre", "uint8"))])], pre=pre), 6, lo=0, defs=d)
        # zero elements skip the body, whatever it holds
        E = Enum("E", "uint8", [("A", 1), ("B", 2), ("C", 50)])
        body = Struct("B", [En(E, "e"), If("e == 2", "$Pv_e == 2", [I("uint16", "x")], [I("uint8", "y"), Arr("uint16", "z", ("pre", "uint8"))]), Sw("e", [("1", 1, [I("uint8", "c1")]), ("2", 2, [Arr("uint8", "c2", ("fix", 2))]), ("3", 3, []), ("4", 4, [I("uint16", "c4")])], [StrZ("df", 2)]), I("uint8", "tail", deco="@range(3, 200)", post="v >= 3 && v <= 200")])
        out += jobs("skip-rich" + b, P([Arr(body, "s", ("pre", "uint8"))], [E, body]), 10, lo=2, modes="d", defs=d, time=500)
        out += jobs("skip-rich-enc" + b, P([Arr(body, "s", ("fix", 0))], [E, body]), 3, lo=1, defs=d)
        out += jobs("in-branches" + b, P([I("uint8", "k"), If("k > 3", "v_k > 3", [Arr("uint16", "v", ("pre", "uint8"))], [Arr("uint8", "w", ("fix", 2))]), Sw("k", [("1", 1, [Arr("uint16", "x", ("fix", 1))]), ("9", 9, [Arr("uint8", "y", ("pre", "uint8"))])])]), 10, lo=3, defs=d, raw=1)
        # 8 nested arrays work, 9 are refused
        nest = [Struct("N8", [Arr("uint8", "v", ("fix", 1))])]
        for i in range(7, 0, -1):
            nest.append(Struct("N%d" % i, [Arr(nest[-1], "n", ("fix", 1))]))
        out += jobs("depth8" + b, P([St(nest[-1], "r")], nest), 3, lo=2, defs=d)
        n9 = nest + [Struct("N0", [Arr(nest[-1], "n", ("fix", 1))])]
        out.append(Job("depth9" + b, None, group="comp", must=["refused"], text=r'''
#include "codec.h"
void harness(void) {
  csx_assert(cd_compile(%s) == 0, "a valid schema is rejected");
  csx_assert(cd_load() == 0, "the compiled image does not load");
  uint8_t b[4]; csx_bytes(b, 4, "message"); cnd_vm_ctx c; memset(&c, 0, sizeof c); csxh_failat = -1; csxh_data = b; csxh_len = 4;
  cnd_init(&c, csx_pick(0, 1, "mode") ? CND_MODE_DECODE : CND_MODE_ENCODE, &csxh_prog, b, 4, cd_cb, 0);
  csx_assert(cnd_execute(&c) != CND_ERR_OK, "arrays nested too deeply are accepted"); csx_reach("refused");
}''' % cstr(P([Arr("uint8", "pp", ("fix", 1)), St(n9[-1], "r")], n9).src)))
    return out
