from gen import *
TITLE = "Padding, fill and alignment place every following field exactly"
BOUNDS = {"quick": "starting bit 0..7, pads 0..24 and {31,32,33,63,64,65,127,128,255} bits, both fill values, both byte orders and modes; unaligned structs alone, in arrays and nested; every byte of the buffer and every value symbolic",
          "thorough": "pads 0..255"}
GRID = r'''
#include "codec.h"
#include <stdio.h>
static char src[400];
static int PADN, OFF, BE, FV, FORM;
static void orc(void) {
  if (OFF) B("a", OP_IO_BIT_U, OFF, BE);
  PAD(PADN, BE);
  B("x", OP_IO_BIT_I, 5, BE);
  if (FORM & 1) FILL(FV, BE);
  if (FORM & 2) B("y", OP_IO_BIT_U, 3, BE);
  F("z", OP_IO_U16, BE);
  B("w", OP_IO_BIT_U, 2, BE);
}
static const int pads[] = {31, 32, 33, 63, 64, 65, 127, 128, 255};
void harness(void) {
  uint64_t pi = csx_pick(csx_param(1), csx_param(2), "pad");
  PADN = csx_param(6) && pi > 24 ? pads[pi - 25] : (int)pi;
  OFF = (int)csx_pick(0, 7, "offset"); BE = (int)csx_param(3); FV = (int)csx_param(4); FORM = (int)csx_param(5);
  char* p = src;
  p += sprintf(p, "%spacket P { ", BE ? "@big_endian " : "");
  if (OFF) p += sprintf(p, "uint8 a : %d; ", OFF);
  p += sprintf(p, FORM & 4 ? "@pad(%d) int8 x : 5; " : "@pad(%d); int8 x : 5; ", PADN);
  if (FORM & 1) p += sprintf(p, FV ? "@fill(1); " : FORM & 4 ? "@fill(0); " : "@fill; ");
  if (FORM & 2) p += sprintf(p, "uint8 y : 3; ");
  p += sprintf(p, "uint16 z; uint8 w : 2; }");
  csx_assert(cd_compile(src) == 0, "a valid schema is rejected");
  csx_assert(cd_load() == 0, "the compiled image does not load");
  int bits = OFF + PADN + 5;
  if (FORM & 1) bits = (bits + 7) / 8 * 8;
  if (FORM & 2) bits += 3;
  size_t n = (size_t)(bits + 7) / 8 + 3;
  cd_run((int)csx_param(0), n, 0, orc);
}
'''


def make(tier, seed):
    out = []
    for mode in (0, 1):
        for be in (0, 1):
            for fv, form in ((0, 3), (1, 7), (0, 1), (1, 2)) if tier != "quick" else ((0, 3), (1, 7)):
                rs = [(0, 12), (13, 24), (25, 33)] if tier == "quick" else [(i, i + 15) for i in range(0, 255, 16)]
                for lo, hi in rs:
                    out.append(Job("grid/%s/%s/f%d%d-%d" % ("enc" if not mode else "dec", "be" if be else "le", fv, form, lo), None, group="comp", params=[mode, lo, hi, be, fv, form, tier == "quick"], text=GRID, must=["ok"], time=600, weight=3))
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        out += jobs("double-fill" + b, Packet([Fill(1), I("uint8", "a", width=3), Fill(1), Fill(0), I("uint8", "b"), Fill(1), I("uint8", "c", width=8), Fill(1), I("uint16", "d")], pre=pre), 6, lo=0)
        out += jobs("auto" + b, Packet([I("uint8", "a", width=3), StrZ("s", 3), I("uint8", "b", width=1), Arr("uint16", "v", ("fix", 2)), I("uint8", "c", width=7), Con("uint16", "k", "0x1234", 0x1234), I("uint8", "e", width=6), I("double", "d"), I("uint8", "g", width=6), StrP("p")], pre=pre), 24 if tier != "quick" else 22, lo=21)
        U = Struct("U", [I("uint8", "a", width=3), I("uint8", "b", width=5), I("uint16", "c", width=10), Fill(1), I("uint8", "d"), Pad(12, "int16", "e : 12") if False else Raw("@pad(11) int16 e : 13;", 'PAD(11, 1); v_e = B("$Pe", OP_IO_BIT_I, 13, 1);'), I("bool", "f"), Fill(0)], pre="@unaligned_bytes")
        W = Struct("W", [I("uint8", "q"), St(U, "u"), I("uint32", "r")])
        n = 8
        out += jobs("unaligned" + b, Packet([I("uint16", "h"), St(U, "s"), I("uint16", "t")], [U], pre=pre), n + 5, lo=n + 3, defs=["-Dv_e=v_e_"], pre="static unsigned long v_e_;\n")
        out += jobs("unaligned-nested" + b, Packet([I("uint8", "h", width=5), St(W, "w"), Arr(U, "s", ("fix", 2)), I("uint16", "t")], [U, W], pre=pre), 1 + 5 + 3 * n + 3, lo=1 + 5 + 3 * n, defs=["-Dv_e=v_e_"], pre="static unsigned long v_e_;\n")
        out += jobs("branches" + b, Packet([I("uint8", "a", width=3), If("a > 2", "v_a > 2", [I("uint8", "b", width=2), I("uint16", "c")], [I("uint8", "d", width=7)]), I("uint8", "e", width=3), Fill(1), I("uint8", "z")], pre=pre), 6, lo=3)
    return out
