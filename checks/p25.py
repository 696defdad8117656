from csxlib import Job
from texts import *
TITLE = "Any source text compiles to an image or to diagnostics, never to a crash"
BOUNDS = {"quick": "every source of up to 3 bytes, and of 4 bytes after a valid beginning; schema texts using every construct: an arbitrary byte inserted in front of and in place of the start of every token, two arbitrary bytes at every eighth token, every token removed, repeated or replaced by each token of the language, every prefix; names, strings, comments, numbers and nestings of extreme length", "thorough": "two arbitrary bytes at every token, arbitrary sources of 4 bytes"}
H = '#include "source.h"\n#include <stdio.h>\n'
WIN = H + '''static const char T[] = %s; static const uint16_t A[] = {%s}, E[] = {%s};
static void digits(char* w, int n) { csx_bytes(w, n, "bytes"); if (csx_param(4)) for (int i = 0; i < n; i++) if (w[i] >= '0' && w[i] <= '9') w[i] = (char)csx_concrete((uint8_t)w[i]); }
static void put(size_t at, const char* w, size_t n, size_t from) { memcpy(csxh_src, T, at); memcpy(csxh_src + at, w, n); strcpy(csxh_src + at + n, T + from); }
int harness(void) { size_t k = csx_pick(csx_param(0), csx_param(1), "token"), at = A[k], to = E[k]; static char w[64]; int n = (int)csx_param(3);
  switch (csx_param(2)) {
  case 0: digits(w, n); put(at, w, n, at); break;
  case 1: digits(w, n); put(at, w, n, at + 1); break;
  case 2: memcpy(csxh_src, T, at); csxh_src[at] = 0; break;
  case 3: { static const char* const R[] = {%s}; const char* r = R[csx_pick(0, sizeof R / sizeof *R - 1, "replacement")]; w[0] = ' '; strcpy(w + 1, r); strcat(w, " "); put(at, w, strlen(w), to); break; }
  case 4: put(at, "", 0, to); break;
  case 5: put(at, T + at, to - at, at); break;
  }
  so_any(csxh_src, (int)(k & 1)); return 0; }
'''
SHORT = H + '''int harness(void) { strcpy(csxh_src, %s); size_t l = strlen(csxh_src), n = csx_param(0); csx_bytes(csxh_src + l, n, "source"); csxh_src[l + n] = 0; strcat(csxh_src, %s); so_any(csxh_src, (int)csx_param(1)); return 0; }
'''
LONG = H + '''static char csxh_big[30000];
int harness(void) { char* p = csxh_big; p += sprintf(p, "%%s", %s); for (int i = 0; i < (int)csx_param(0); i++) p += sprintf(p, "%%s", %s); p += sprintf(p, "%%s", %s); csx_capture(1); csx_file("t.cnd", csxh_big, p - csxh_big);
  int rc = cnd_compile_file("t.cnd", "o.il", (int)csx_param(1), (int)csx_param(2)); csx_note("rc", rc != 0); csx_reach(rc ? "rejected" : "compiled");
  static uint8_t img[1 << 16]; size_t n = csx_file_get("o.il", img, sizeof img); csx_assert((rc == 0) == (n != (size_t)-1 && n > 0), "result and image do not agree"); csx_assert(rc == 0 || csx_out_count(1) > 0 || csx_out_count(2) > 0, "a failed compilation prints no diagnostic");
  if (rc == 0) { cnd_program g; csx_assert(cnd_program_load_il(&g, img, n) == CND_ERR_OK && cnd_verify_program(&g) == CND_ERR_OK, "the compiled program is rejected by the verifier"); } return 0; }
'''
TOK = ["{", "}", "[", "]", "(", ")", ";", ":", ",", "@", ".", "=", "==", "!", "-", "+", "*", "<", "&&", "|", "~", "x", "P", "E", "S", "uint8", "int32", "float", "bool", "string", "struct", "enum", "packet", "switch", "case", "default", "if", "else", "true", "self", "prefix", "until", "max", "0", "1", "-1", "255", "0xFFFFFFFFFFFFFFFF", "99999999999999999999", "2.5", "\"s\"", "/// d\n", "@count(a)", "@eof", "@optional", "@fill", "@pad(3)", "@crc(16)", "@const(1)", "@range(0,1)", "@expr(a)", "@scale(2)", "@poly(1)", "@spline(0,0,1,1)", "@add(1)", "@be", "@unaligned_bytes", "@import(\"q\")", "#", "\"", "/*"]


def make(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(0, 4 if q else 5):
        out.append(Job("short%d" % n, None, group="comp", text=SHORT % ('""', '""'), params=[n, n & 1], time=500, weight=n))
    for i, (a, b) in enumerate([("packet P{", "}"), ("packet P{uint8 a", ";}"), ("packet P{@", "uint8 a;}"), ("packet P{@expr(", ") uint8 e;}"), ("enum E{", "}packet P{E e;}"), ("struct S{uint8 a", ";}packet P{S s;}"), ("@", "packet P{uint8 a;}"), ("packet P{uint8 k;switch(k){", "}}"), ("packet P{uint8 a[", "];}"), ("packet P{uint8 a;if(", "){uint8 b;}}"), ("packet P{@const(", ")uint8 a;}"), ("packet P{@range(1,", ")uint8 a;}"), ("packet P{@scale(", ")uint8 a;}"), ("packet P{uint8 a:", ";@fill;}")]):
        out.append(Job("after%d" % i, None, group="comp", text=SHORT % (cq(a), cq(b)), params=[(2 if i in (2, 12) else 3) + (not q), i & 1], time=500, weight=6))
    for nm, t in ALL:
        tk = tokens(t)
        A, E = ", ".join(str(x[0]) for x in tk), ", ".join(str(x[1]) for x in tk)
        txt = WIN % (cq(t), A, E, ", ".join(cq(x) for x in TOK))
        for lo in range(0, len(tk), 12):
            hi = min(lo + 11, len(tk) - 1)
            for kind, nb in ((0, 1), (1, 1), (3, 0)):
                out.append(Job("%s@%d-%s" % (nm, lo, ["insert", "byte", "cut", "replace"][kind]), None, group="comp", text=txt, params=[lo, hi, kind, nb, nm == "control"], time=400, weight=3))
        for kind in (2, 4, 5):
            out.append(Job("%s-%s" % (nm, {2: "cut", 4: "remove", 5: "repeat"}[kind]), None, group="comp", text=txt, params=[0, len(tk) - 1, kind, 0], time=400, weight=3))
        for i in range(0, len(tk), 8 if q else 1):
            out.append(Job("%s@%d-two" % (nm, i), None, group="comp", text=txt, params=[i, i, 0, 2, nm in ("control", "decorated")], time=400, weight=3))
    for i, (a, r, b, k) in enumerate([("packet P{uint8 ", "abcdefgh", ";}", 40), ("packet P{uint8 ", "abcdefgh", ";}", 600), ("packet P{", "uint8 a;", "}", 3), ("struct S{uint8 ", "abcdefgh", ";}packet P{S s;S t[2];}", 32), ("struct S{uint8 abc;}packet P{S ", "abcdefgh", ";}", 33), ("@import(\"", "abcdefgh", "\")packet P{uint8 a;}", 32), ("@import(\"", "../", "x\")packet P{uint8 a;}", 84), ("packet P{uint8 a;@expr(", "a.", "b) uint8 e;}", 130), ("packet P{uint8 a;@expr(", "abcdefgh", ".b) uint8 e;}", 32), ("packet P{@expr(", "(", "1) uint8 e;}", 300), ("packet P{@expr(", "-", "1) uint8 e;}", 300), ("packet P{@expr(", "1+", "1) uint8 e;}", 300), ("packet P{uint8 a;", "if(a){", "}", 300), ("packet P{@const(", "9", ") uint8 a;}", 300), ("packet P{@scale(", "9", ") uint8 a;}", 100), ("packet P{@poly(1", ",1", ") uint8 a;}", 255), ("packet P{@poly(1", ",1", ") uint8 a;}", 254), ("packet P{@spline(1,1", ",1,1", ") uint8 a;}", 260), ("/// ", "abcdefgh", "\npacket P{uint8 a;}", 100), ("@unaligned_bytes struct ", "abcdefgh", "{uint8 a:3;}packet P{uint8 a;}", 50), ("enum E:uint8{a", ",a", "}packet P{E e;}", 20), ("packet P{uint8 a;switch(a){case 0:uint8 x;", "case 1:uint8 b;", "}}", 9), ("packet ", "abcdefgh", "{uint8 a;}", 100), ("packet P{", "@be ", "uint8 a;}", 200), ("", "@be ", "packet P{uint8 a;}", 200), ("packet P{uint8 a", " /* c */", ";}", 200), ("packet P{uint8 a;", "@pad(255);", "}", 100), ("packet P{uint8 a;", "@fill;", "}", 300)]):
        for j in (0, 1):
            out.append(Job("long%d-%d" % (i, j), None, group="comp", text=LONG % (cq(a), cq(r), cq(b)), params=[k, j, 1 - j], time=300, weight=2, steps=400000000))
    return out
