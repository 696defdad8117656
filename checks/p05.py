from gen import *
TITLE = "Bitfields are packed exactly as documented for every width and position"
BOUNDS = {"quick": "every width 1..64 at every starting bit 0..7, signed and unsigned, both byte orders, both modes, with neighbouring bit fields; symbolic values and messages",
          "thorough": "quick plus mixed runs, fields after the runs, structs, arrays, branches and unaligned structs"}

# every width and starting bit: the schema text is built in the harness from concrete picks (all combinations explored), values are symbolic
GRID = r'''
#include "codec.h"
#include <stdio.h>
static char src[300];
static int W, OFF, BE, SG, TAIL;
static void orc(void) {
  if (OFF) B("a", OP_IO_BIT_U, OFF, BE);
  B("x", SG ? OP_IO_BIT_I : OP_IO_BIT_U, W, BE);
  B("y", OP_IO_BIT_U, 3, BE);
  if (TAIL) B("t", OP_IO_BIT_U, TAIL, BE);
  F("z", OP_IO_U8, 0);
}
void harness(void) {
  W = (int)csx_pick(csx_param(1), csx_param(2), "width"); OFF = (int)csx_pick(0, 7, "offset"); BE = (int)csx_param(3); SG = (int)csx_param(4);
  TAIL = csx_param(5) ? (8 - (OFF + W + 3) % 8) % 8 : 0;
  char* p = src; const char* t = W > 32 ? "64" : W > 16 ? "32" : W > 8 ? "16" : "8";
  p += sprintf(p, "%spacket P { ", BE ? "@big_endian " : "");
  if (OFF) p += sprintf(p, "uint8 a : %d; ", OFF);
  p += sprintf(p, "%s%s x : %d; uint8 y : 3; ", SG ? "int" : "uint", t, W);
  if (TAIL) p += sprintf(p, "uint8 t : %d; ", TAIL);
  p += sprintf(p, "uint8 z; }");
  csx_assert(cd_compile(src) == 0, "a valid schema is rejected");
  csx_assert(cd_load() == 0, "the compiled image does not load");
  size_t n = (size_t)(OFF + W + 3 + TAIL + 7) / 8 + 1;
  cd_run((int)csx_param(0), n - (csx_param(6) ? csx_pick(0, 1, "short") : 0), 0, orc);
}
'''


def make(tier, seed):
    out = []
    for mode in (0, 1):
        for be in (0, 1):
            for sg in (0, 1):
                for lo, hi in ((1, 16), (17, 32), (33, 48), (49, 64)):
                    out.append(Job("grid/%s/%s/%s%d-%d" % ("enc" if not mode else "dec", "be" if be else "le", "i" if sg else "u", lo, hi), None, group="comp", params=[mode, lo, hi, be, sg, 1 if sg else 0, 1 if tier != "quick" else 0], text=GRID, must=["ok"], time=600, weight=3))
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        mk = lambda: [I("uint8", "a", width=1), I("int16", "b", width=11), I("uint32", "c", width=20), I("bool", "d", width=1), I("int8", "e", width=7), I("uint64", "g", width=40)]
        out += contexts("mixed", mk, 10, pres=(pre,), which="tsaiw" if tier != "quick" else "ti")
        out += jobs("ov" + b, Packet([I("uint8", "a", width=4), I("uint8", "b", width=4), I("uint16", "c", "be", width=12), I("uint8", "d", "be", width=4), I("uint8", "e", width=8), I("uint16", "f")], pre=pre), 7, lo=6)
        out += jobs("bytes" + b, Packet([I("uint8", "a", width=8), I("uint16", "b", width=16), I("uint32", "c", width=32), I("uint64", "d", width=64), I("int64", "e", width=64)], pre=pre), 24, lo=22)
    S = Struct("U", [I("uint8", "a", width=3), I("uint8", "b"), I("uint16", "c", width=13)], pre="@unaligned_bytes")
    out += jobs("unaligned", Packet([I("uint8", "q"), St(S, "s"), I("uint16", "r")], [S]), 6, lo=5)
    return out
