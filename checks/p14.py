from gen import *
TITLE = "Integer transforms (@add, @sub, @mul, @div) are applied and inverted exactly"
BOUNDS = "all raw and host values (64-bit), every integer and floating field type, boundary operands incl. INT64_MIN/-1/0, every context"


def make(tier, seed):
    out = []
    q = tier == "quick"
    ks = {"+": [0, 1, -1, 5, 1000, 2 ** 63 - 1, -2 ** 63], "-": [1, -7, 300, 2 ** 63 - 1, -2 ** 63], "*": [1, 2, 3, -1, 10, 256, 0, -2 ** 63], "/": [1, 2, 3, -1, -4, 10, 256, -2 ** 63]}
    types = ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "byte")
    for ti, t in enumerate(types):
        n = T[t][1]
        for op in "+-*/":
            l = ks[op]
            if q and len(t) <= 4 and t not in ("byte", "int8"):
                l = l[ti % len(l):][:1]
            elif q:
                l = [l[(ti + 3 * j) % len(l)] for j in range(3)]
            for i, k in enumerate(l):
                heavy = op in "*/" and k not in (0, 1, -1, 2, 256, -2 ** 63)
                out += jobs("%s%s%d" % (t, op, k), Packet([I("uint8", "h"), Tr(t, "v", op, k, (None, "be", "le")[i % 3]), I("uint16", "z")], pre="@big_endian" if (i + ti) % 2 else ""), n + 3, lo=n + 2 if q else 0, time=200 if heavy else 120)
    # round trip: whatever the host gives back is what was on the wire, where the transform is invertible
    for t, op, k in [("int16", "+", 100), ("uint8", "-", 3), ("int32", "*", 7), ("uint16", "*", -3), ("uint32", "+", -5), ("int64", "-", 2 ** 63 - 1), ("uint64", "+", 1), ("int8", "*", 255), ("int16", "/", 1), ("int32", "/", -1)]:
        for pre in ("", "@big_endian"):
            out.append(Job("roundtrip-%s%s%d%s" % (t, op, k, "-be" if pre else ""), None, group="comp", must=["ok"], time=200, text=RT % cstr(Packet([Tr(t, "v", op, k)], pre=pre).src)))
    mk = lambda: [Tr("int16", "k", "+", 7), I("uint8", "m"), Tr("uint8", "l", "*", 2), I("int16", "n", "be"), Tr("uint16", "o", "/", 4, "be"), Tr("int8", "p", "-", -9)]
    out += contexts("ctx", mk, 9)
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        # no leak onto anything that follows, whatever it is
        E = Enum("E", "uint8", [("A", 1), ("B", 2)])
        S = Struct("S", [I("int16", "a"), Tr("int16", "t", "+", 2)])
        out += jobs("noleak" + b, Packet([Tr("uint8", "a", "+", 1), I("uint8", "b"), Tr("uint8", "c", "*", 2), En(E, "e"), Tr("int8", "d", "-", 2), Con("uint8", "k", "9", 9), Tr("int16", "f", "+", 3), St(S, "s"), I("uint16", "g"), Tr("uint8", "i", "/", 2), Arr("uint8", "v", ("fix", 2)), Tr("uint8", "j", "+", 4), I("uint8", "x", width=4), I("uint8", "y", width=4), Tr("uint8", "l", "+", 4), I("float", "fl"), Tr("uint8", "m", "+", 4), I("bool", "bo"), I("uint8", "z")], [E, S], pre=pre), 27, lo=26, must=["ok"], time=300)
        out += jobs("elements" + b, Packet([ArrT("int16", "v", 2, "+", 5), ArrT("uint8", "w", 2, "*", 3), I("uint8", "z")], pre=pre), 8, lo=7)
        out += jobs("range" + b, Packet([TrR("int16", "v", "+", 100, -5, 90), TrR("uint8", "w", "*", 2, 3, 9), I("uint8", "z")], pre=pre), 4, lo=3, must=["ok", "invalid"]) if 0 else []
    return out


class ArrT(N):
    """fixed array of transformed integers"""
    def __init__(self, t, name, n, op, k):
        self.t, self.name, self.n, self.tr = t, name, n, Tr(t, name, op, k)
        self.src = self.tr.src.replace(name + ";", "%s[%d];" % (name, n))

    def decl(self, c):
        return self.tr.decl(c)

    def orc(self, c):
        return '{ uint32_t c_ = A_FIX("%s", %d); for (uint32_t i_ = 0; i_ < c_ && !O.st; i_++) { %s } A_END(c_); }' % (c.prefix + self.name, self.n, self.tr.orc(c))


RT = r'''
#include "codec.h"
static uint8_t a[8], b[8]; static uint64_t val;
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t key, uint8_t type, void* p) { (void)key; (void)type; if (c->mode == CND_MODE_DECODE) val = *(uint64_t*)p; else *(uint64_t*)p = val; return CND_ERR_OK; }
void harness(void) {
  csx_assert(cd_compile(%s) == 0, "a valid schema is rejected");
  csx_assert(cd_load() == 0, "the compiled image does not load");
  cnd_vm_ctx c; csx_bytes(a, 8, "message");
  memset(&c, 0, sizeof c); cnd_init(&c, CND_MODE_DECODE, &csxh_prog, a, 8, cb, 0); csx_assert(cnd_execute(&c) == CND_ERR_OK, "decoding fails");
  size_t n = c.cursor;
  memset(&c, 0, sizeof c); cnd_init(&c, CND_MODE_ENCODE, &csxh_prog, b, 8, cb, 0); csx_assert(cnd_execute(&c) == CND_ERR_OK, "encoding fails");
  csx_assert(c.cursor == n, "another length");
  for (size_t i = 0; i < n; i++) csx_assert(a[i] == b[i], "the value encoded differs from the one decoded");
  csx_reach("ok");
}
'''
