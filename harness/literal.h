/* A literal with symbolic digits in a schema: accepted iff its value fits its position, and the instruction holds that value. */
#include "source.h"
#include <stdio.h>
static char csxh_lit[120]; static uint64_t csxh_m, csxh_v; static int csxh_over; static double csxh_d; static int csxh_neg;
/* kind 0 decimal, 1 hexadecimal, 2 decimal fraction; stem: concrete leading digits; n symbolic digits, for kind 2 f of them behind the point */
static void li_make(int kind, int neg, const char* stem, int n, int f) {
  char* w = csxh_lit; if (neg) *w++ = '-'; if (kind == 1) { *w++ = '0'; *w++ = csx_pick(0, 1, "X") ? 'X' : 'x'; }
  uint64_t lo = 0, hi = 0; csxh_over = 0; size_t l = strlen(stem); char d[24]; csx_bytes(d, 24, "digits");
  for (size_t i = 0; i < l + (size_t)n; i++) {
    char c = i < l ? stem[i] : d[i - l];
    if (kind == 1) { csx_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')); lo = lo * 16 + (uint64_t)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); hi = hi * 16; }
    else { csx_assume(c >= '0' && c <= '9'); if (csx_param(6)) c = (char)csx_concrete((uint8_t)c); lo = lo * 10 + (uint64_t)(c - '0'); hi = hi * 10; }
    hi += lo >> 32; lo &= 0xffffffff; csxh_over |= hi > 0xffffffff; hi &= 0xffffffff;
    if (kind == 2 && i + (size_t)f == l + (size_t)n) *w++ = '.';
    *w++ = c;
  }
  *w = 0; csxh_neg = neg; double p = 1; if (kind == 2) for (int i = 0; i < f; i++) p *= 10;
  csxh_m = hi << 32 | lo; csxh_v = neg ? 0 - csxh_m : csxh_m; csxh_d = (double)csxh_m / p; if (neg) csxh_d = -csxh_d;
}
/* the operand of the k-th instruction with this opcode */
static const uint8_t* li_find(uint8_t op, int k) {
  const uint8_t* p = csxh_img + vf_u(csxh_img + 12, 4); size_t len = csxh_in - (size_t)(p - csxh_img), ip = 0;
  while (ip < len) { if (p[ip] == op && !k--) return p + ip + (op == OP_SWITCH ? 7 + vf_u(p + ip + 3, 4) : 0); size_t z = p[ip] == OP_SWITCH || p[ip] == OP_SWITCH_TABLE ? 7 : vf_size(p + ip, len - ip); if (!z) break; ip += z; }
  csx_assert(0, "the instruction the literal belongs to is missing"); return 0;
}
static int li_compile(const char* a, const char* b) { strcpy(csxh_src, a); strcat(csxh_src, csxh_lit); strcat(csxh_src, b); csx_capture(1); int rc = so_compile(csxh_src, "t.cnd", 0); csx_note("rc", rc != 0); csx_reach(rc ? "rejected" : "accepted"); return rc; }
/* whether the literal lies between a and b, of which a is given by its magnitude and sign */
static int li_fits(uint64_t a, int aneg, uint64_t b) { if (csxh_over) return 0; if (csxh_neg) return aneg ? csxh_m <= a : a == 0 && csxh_m == 0; return (aneg || csxh_m >= a) && csxh_m <= b; }
