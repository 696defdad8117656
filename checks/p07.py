from gen import *
TITLE = "Strings are framed, truncated and bounds-checked exactly"
BOUNDS = {"quick": "host strings of 0..4 bytes (all contents), buffers of 0..12 bytes, maxima 0..6 and default, all prefix values, both byte orders", "thorough": "host strings up to 8 bytes, buffers up to 20 bytes"}


def make(tier, seed):
    out = []
    q = tier == "quick"
    d = [] if q else ["-DSTRCAP=8"]
    ex = 0 if q else 6
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        for mx in (0, 1, 2, 3, 4, 6):
            out += jobs("until-max%d%s" % (mx, b), Packet([StrZ("s", mx, text=" until 0 max %d" % mx), I("uint16", "z")], pre=pre), 9 + ex, defs=d)
            if mx:
                out += jobs("max%d%s" % (mx, b), Packet([StrZ("s", mx, text=" max %d" % mx), I("uint16", "z")], pre=pre), 8 + ex, lo=6 if q else 0, defs=d)
        out += jobs("until" + b, Packet([StrZ("s", None, text=" until 0"), I("uint16", "z")], pre=pre), 9 + ex, defs=d)
        out += jobs("bare" + b, Packet([StrZ("s", None, text=""), I("uint16", "z")], pre=pre), 8 + ex, lo=5, defs=d)
        for pt in ("uint8", "u8", "uint16", "u16", "uint32", "u32"):
            out += jobs("prefix-%s%s" % (pt, b), Packet([StrP("s", pt), I("uint16", "z")], pre=pre), 11 + ex, lo=0 if len(pt) > 3 else 8, defs=d)
            out += jobs("prefix-ov-%s%s" % (pt, b), Packet([I("uint16", "a"), StrP("s", pt, "le" if pre else "be"), I("uint16", "z")], pre=pre), 10 + ex, lo=9, defs=d)
        out += jobs("three" + b, Packet([StrZ("s", 3), StrP("p", "uint16"), StrZ("t", 2), I("uint8", "z")], pre=pre), 12, lo=11, defs=d, time=400)
        S = Struct("S", [StrZ("n", 2), StrP("p", "uint8"), I("uint16", "k")])
        out += jobs("struct" + b, Packet([I("uint8", "q"), St(S, "s"), I("uint16", "z")], [S], pre=pre), 9, lo=8, defs=d)
        if not q or not pre:
            out += jobs("structs" + b, Packet([Arr(S, "s", ("fix", 2)), I("uint8", "z")], [S], pre=pre), 9, lo=8, defs=d, time=500)
        out += jobs("array-prefix" + b, Packet([Arr(("string", "uint8"), "s", ("fix", 2)), I("uint16", "z")], pre=pre), 9, lo=5, defs=d)
        out += jobs("array-until" + b, Packet([Arr(("string", None), "s", ("fix", 3), emax=2), I("uint16", "z")], pre=pre), 9, lo=7, defs=d)
        out += jobs("bits" + b, Packet([I("uint8", "a", width=3), StrZ("s", 3), I("uint8", "b", width=5), StrP("p", "uint16"), I("uint16", "z")], pre=pre), 11, lo=9, defs=d)
    # a host string longer than its 8-bit prefix can count is truncated
    LONG = r'''
#include "codec.h"
static char big[262]; static uint8_t buf[300];
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t k, uint8_t t, void* p) { (void)c; (void)k; if (t == OP_STR_PRE_U8) *(const char**)p = big; else *(uint8_t*)p = 0x77; return CND_ERR_OK; }
void harness(void) {
  csx_assert(cd_compile("packet P { string s prefix uint8; uint8 z; }") == 0, "a valid schema is rejected");
  csx_assert(cd_load() == 0, "the compiled image does not load");
  size_t len = (size_t)csx_pick(253, 260, "length");
  for (size_t i = 0; i < len; i++) big[i] = 'x';
  csx_bytes(big + 250, 3, "chars"); for (int i = 250; i < 253; i++) csx_assume(big[i] != 0);
  cnd_vm_ctx ctx; memset(&ctx, 0, sizeof ctx);
  cnd_init(&ctx, CND_MODE_ENCODE, &csxh_prog, buf, sizeof buf, cb, 0);
  int st = cnd_execute(&ctx); size_t n = len > 255 ? 255 : len;
  csx_assert(st == CND_ERR_OK, "a long string fails to encode");
  csx_assert(buf[0] == n && ctx.cursor == n + 2 && buf[n + 1] == 0x77, "a long string is framed wrongly");
  for (size_t i = 0; i < n; i++) csx_assert(buf[1 + i] == (uint8_t)big[i], "a long string is copied wrongly");
  csx_reach("ok");
}
'''
    out.append(Job("long-host-string", None, group="comp", text=LONG, must=["ok"]))
    return out
