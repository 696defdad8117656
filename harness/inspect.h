/* The inspection tools: everything they print is recorded as a stream of literal characters and values. */
#include "csx.h"
#include "concordia.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <inttypes.h>
#include <limits.h>
enum { IS_CH = 1, IS_INT, IS_DBL, IS_STR };
static struct { int k; uint64_t v; long n; } csxh_it[6000]; static int csxh_ni;
static void is_add(int k, uint64_t v, long n) { if (csxh_ni == 6000) return; csxh_it[csxh_ni].k = k; csxh_it[csxh_ni].v = v; csxh_it[csxh_ni++].n = n; }
static void is_v(const char* f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { is_add(IS_CH, (uint8_t)*f, 0); continue; }
    f++; if (*f == '%') { is_add(IS_CH, '%', 0); continue; }
    long prec = -1; int lng = 0, half = 0;
    while (*f == '-' || *f == '0' || *f == '+' || *f == '#' || *f == ' ') f++;
    if (*f == '*') { (void)va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') f++;
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') half++; else break; }
    if (*f == 's') { const char* s = va_arg(ap, const char*); long l = 0; while ((prec < 0 || l < prec) && s[l]) l++; char* c = malloc((size_t)l + 1); memcpy(c, s, (size_t)l); c[l] = 0; is_add(IS_STR, (uint64_t)(uintptr_t)c, l); }
    else if (*f == 'd' || *f == 'i') { int64_t v = lng ? va_arg(ap, int64_t) : va_arg(ap, int); if (half == 1) v = (short)v; if (half > 1) v = (signed char)v; is_add(IS_INT, (uint64_t)v, 0); }
    else if (*f == 'u' || *f == 'x' || *f == 'X') { uint64_t v = lng ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); if (half == 1) v = (uint16_t)v; if (half > 1) v = (uint8_t)v; is_add(IS_INT, v, 1); }
    else if (*f == 'c') is_add(IS_CH, (uint8_t)va_arg(ap, int), 0);
    else { double d = va_arg(ap, double); uint64_t v; memcpy(&v, &d, 8); is_add(IS_DBL, v, 0); }
  }
}
/* the sources are compiled with printf & co. renamed to these */
int is_printf(const char* f, ...) { va_list ap; va_start(ap, f); is_v(f, ap); va_end(ap); return 1; }
int is_fprintf(FILE* o, const char* f, ...) { (void)o; va_list ap; va_start(ap, f); is_v(f, ap); va_end(ap); return 1; }
int is_puts(const char* s) { while (*s) is_add(IS_CH, (uint8_t)*s++, 0); is_add(IS_CH, '\n', 0); return 1; }
int is_fputs(const char* s, FILE* f) { (void)f; while (*s) is_add(IS_CH, (uint8_t)*s++, 0); return 1; }
int is_fputc(int c, FILE* f) { (void)f; is_add(IS_CH, (uint8_t)c, 0); return c; }
int is_putc(int c, FILE* f) { return is_fputc(c, f); }
int is_putchar(int c) { is_add(IS_CH, (uint8_t)c, 0); return c; }
int csxh_open_files(void) __attribute__((weak));
static char csxh_p0[4] = "cnd", csxh_p1[8] = "inspect", csxh_p2[8] = "f.il"; static char* csxh_av[4] = {csxh_p0, csxh_p1, csxh_p2, 0};
int cmd_inspect(int argc, char** argv); int hexview_main(int argc, char** argv);
static int is_at;   /* next item */
static int is_lit(const char* s) { for (int i = 0; s[i]; i++) if (is_at + i >= csxh_ni || csxh_it[is_at + i].k != IS_CH || csxh_it[is_at + i].v != (uint8_t)s[i]) return 0; return 1; }
static void is_find(const char* s) { while (is_at < csxh_ni && !is_lit(s)) is_at++; csx_assert(is_at < csxh_ni, "a section of the listing is missing"); }
static int is_alnum(uint64_t c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
/* literal text: characters, and strings that are only punctuation (separators) */
static int is_text(int i) { if (csxh_it[i].k == IS_CH) return csxh_it[i].v != '\n'; if (csxh_it[i].k != IS_STR) return 0; const char* t = (const char*)(uintptr_t)csxh_it[i].v; for (long k = 0; k < csxh_it[i].n; k++) if (is_alnum((uint8_t)t[k])) return 0; return 1; }
static void is_eol(void) { while (is_at < csxh_ni && is_text(is_at)) is_at++; csx_assert(is_at >= csxh_ni || csxh_it[is_at].k == IS_CH, "the listing shows something that is not there"); is_at++; }
/* next value on this line */
static int is_next(void) { while (is_at < csxh_ni && is_text(is_at)) is_at++; return is_at < csxh_ni && csxh_it[is_at].k != IS_CH ? is_at++ : -1; }
static void is_int(uint64_t v, const char* what) { int i = is_next(); csx_assert(i >= 0 && csxh_it[i].k == IS_INT && csxh_it[i].v == v, what); }
static void is_dbl(uint64_t v) { int i = is_next(); csx_assert(i >= 0 && csxh_it[i].k == IS_DBL, "a number operand is not listed"); uint64_t w = csxh_it[i].v; int nan = (v << 1) > 0xFFE0000000000000ull; csx_assert(w == v || (nan && (w << 1) > 0xFFE0000000000000ull), "a number operand is listed wrongly"); }
static void is_name_at(int i, const char* s) { csx_assert(i >= 0 && csxh_it[i].k == IS_STR, "a name is not listed"); const char* t = (const char*)(uintptr_t)csxh_it[i].v; for (long k = 0; k < csxh_it[i].n; k++) csx_assert(t[k] == s[k] && s[k], "a name is listed wrongly"); csx_assert(!s[csxh_it[i].n], "a name is listed wrongly"); }
static void is_str(const char* s) { is_name_at(is_next(), s); }
static void is_raw(const char* s) { while (is_at < csxh_ni && csxh_it[is_at].k == IS_CH && csxh_it[is_at].v != '\n') is_at++; is_name_at(is_at < csxh_ni && csxh_it[is_at].k == IS_STR ? is_at++ : -1, s); }
#include "verify.h"
#define N(x) case OP_##x: return #x;
static const char* is_name(uint8_t op) {
  switch (op) {
    N(NOOP) N(SET_ENDIAN_LE) N(SET_ENDIAN_BE) N(ENTER_STRUCT) N(EXIT_STRUCT) N(META_VERSION) N(META_NAME) N(IO_U8) N(IO_U16) N(IO_U32) N(IO_U64) N(IO_I8) N(IO_I16) N(IO_I32) N(IO_I64)
    N(IO_F32) N(IO_F64) N(IO_BOOL) N(IO_BIT_U) N(IO_BIT_I) N(IO_BIT_BOOL) N(ALIGN_PAD) N(ALIGN_FILL) N(ENTER_BIT_MODE) N(EXIT_BIT_MODE) N(STR_NULL) N(STR_PRE_U8) N(STR_PRE_U16) N(STR_PRE_U32)
    N(ARR_FIXED) N(ARR_PRE_U8) N(ARR_PRE_U16) N(ARR_PRE_U32) N(ARR_END) N(RAW_BYTES) N(ARR_EOF) N(ARR_DYNAMIC) N(CONST_CHECK) N(CONST_WRITE) N(RANGE_CHECK) N(SCALE_LIN) N(CRC_16) N(TRANS_ADD) N(TRANS_SUB)
    N(TRANS_MUL) N(TRANS_DIV) N(CRC_32) N(MARK_OPTIONAL) N(ENUM_CHECK) N(TRANS_POLY) N(TRANS_SPLINE) N(JUMP_IF_NOT) N(SWITCH) N(JUMP) N(SWITCH_TABLE) N(LOAD_CTX) N(PUSH_IMM) N(POP) N(SWAP) N(DUP) N(EMIT)
    N(EQ) N(NEQ) N(GT) N(LT) N(GTE) N(LTE) N(LOG_AND) N(LOG_OR) N(LOG_NOT) N(ADD) N(SUB) N(MUL) N(DIV) N(MOD) N(NEG) N(STORE_CTX) N(FADD) N(FSUB) N(FMUL) N(FDIV) N(FNEG) N(SIN) N(COS) N(TAN) N(SQRT)
    N(POW) N(LOG) N(ABS) N(ITOF) N(FTOI) N(EQ_F) N(NEQ_F) N(GT_F) N(LT_F) N(GTE_F) N(LTE_F) N(BIT_AND) N(BIT_OR) N(BIT_XOR) N(BIT_NOT) N(SHL) N(SHR)
  }
  return 0;
}
#undef N
static uint64_t is_sx(uint64_t v, int n) { return n == 8 ? v : (uint64_t)((int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n)); }
static void is_typed(uint8_t t, const uint8_t* p) {
  int n = vf_tsz(t); uint64_t v = vf_u(p, n);
  if (t == OP_IO_F32) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); double d = f; memcpy(&v, &d, 8); is_dbl(v); }
  else if (t == OP_IO_F64) is_dbl(v);
  else is_int(t >= OP_IO_I8 && t <= OP_IO_I64 ? is_sx(v, n) : v, "a typed operand is listed wrongly");
}
static const char IS_K[] = "a key operand is listed wrongly", IS_O[] = "an operand is listed wrongly";
/* the line of the instruction at p */
static void is_line(const uint8_t* base, const uint8_t* p, const uint8_t* end) {
  uint8_t op = p[0]; is_int((uint64_t)(p - base), "an instruction is not listed at its place"); is_str(is_name(op));
  switch (op) {
    case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL: is_int(p[1], IS_O); break;
    case OP_EMIT: is_str(is_name(p[1])); break;
    case OP_ENTER_STRUCT: case OP_META_NAME: case OP_LOAD_CTX: case OP_STORE_CTX: case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64: case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
    case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_BOOL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF: is_int(vf_u(p + 1, 2), IS_K); break;
    case OP_IO_BIT_U: case OP_IO_BIT_I: is_int(vf_u(p + 1, 2), IS_K); is_int(p[3], IS_O); break;
    case OP_STR_NULL: case OP_ARR_DYNAMIC: is_int(vf_u(p + 1, 2), IS_K); is_int(vf_u(p + 3, 2), IS_O); break;
    case OP_JUMP: case OP_JUMP_IF_NOT: is_int(is_sx(vf_u(p + 1, 4), 4), IS_O); break;
    case OP_ARR_FIXED: case OP_RAW_BYTES: is_int(vf_u(p + 1, 2), IS_K); is_int(vf_u(p + 3, 4), IS_O); break;
    case OP_CONST_CHECK: is_int(vf_u(p + 1, 2), IS_K); is_str(is_name(p[3])); is_typed(p[3], p + 4); break;
    case OP_CONST_WRITE: is_str(is_name(p[1])); is_typed(p[1], p + 2); break;
    case OP_RANGE_CHECK: is_str(is_name(p[1])); is_typed(p[1], p + 2); is_typed(p[1], p + 2 + vf_tsz(p[1])); break;
    case OP_ENUM_CHECK: is_str(is_name(p[1])); is_int(vf_u(p + 2, 2), IS_O); for (size_t i = 0; i < vf_u(p + 2, 2); i++) is_typed(p[1], p + 4 + i * vf_tsz(p[1])); break;
    case OP_TRANS_POLY: is_int(p[1], IS_O); for (int i = 0; i < p[1]; i++) is_dbl(vf_u(p + 2 + 8 * i, 8)); break;
    case OP_TRANS_SPLINE: is_int(p[1], IS_O); for (int i = 0; i < 2 * p[1]; i++) is_dbl(vf_u(p + 2 + 8 * i, 8)); break;
    case OP_SCALE_LIN: is_dbl(vf_u(p + 1, 8)); is_dbl(vf_u(p + 9, 8)); break;
    case OP_CRC_16: for (int i = 0; i < 3; i++) is_int(vf_u(p + 1 + 2 * i, 2), IS_O); is_int(p[7], IS_O); break;
    case OP_CRC_32: for (int i = 0; i < 3; i++) is_int(vf_u(p + 1 + 4 * i, 4), IS_O); is_int(p[13], IS_O); break;
    case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: case OP_PUSH_IMM: is_int(vf_u(p + 1, 8), IS_O); break;
    case OP_SWITCH: case OP_SWITCH_TABLE: {
      uint64_t off = vf_u(p + 3, 4); is_int(vf_u(p + 1, 2), IS_K); is_int(off, IS_O);
      const uint8_t* t = p + 7 + off;
      if (op == OP_SWITCH) { size_t c = vf_u(t, 2); is_int(c, IS_O); is_int(is_sx(vf_u(t + 2, 4), 4), IS_O); for (size_t i = 0; i < c; i++) { is_int(vf_u(t + 6 + 12 * i, 8), IS_O); is_int(is_sx(vf_u(t + 14 + 12 * i, 4), 4), IS_O); } }
      else { uint64_t lo = vf_u(t, 8), hi = vf_u(t + 8, 8); is_int(lo, IS_O); is_int(hi, IS_O); is_int(is_sx(vf_u(t + 16, 4), 4), IS_O); for (size_t i = 0; i <= hi - lo; i++) is_int(is_sx(vf_u(t + 20 + 4 * i, 4), 4), IS_O); }
      break; }
    default: break;
  }
  (void)end; is_eol();
}
static uint8_t csxh_f[400]; static size_t csxh_n, csxh_bo;
static uint8_t* is_put(uint8_t* p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * i)); return p + n; }
static void is_head(int strings, const char* tab, size_t tn) { memcpy(csxh_f, "CNDIL\1", 6); is_put(csxh_f + 6, strings, 2); is_put(csxh_f + 8, 16, 4); is_put(csxh_f + 12, 16 + tn, 4); memcpy(csxh_f + 16, tab, tn); csxh_n = csxh_bo = 16 + tn; }
/* no listing that is compared is as long as 6000 items */
static int is_run(void) {
  csx_file("f.il", csxh_f, csxh_n); csxh_ni = 0; is_at = 0;
  int rc = cmd_inspect(3, csxh_av); csx_assert(rc == 0 || rc == 1, "exit status"); if (csxh_open_files) csx_assert(csxh_open_files() == 0, "the file stays open");
  csx_note("rc", rc); return rc;
}
static void is_front(int strings) {   /* header and string table of the listing; is_at ends at the first line of the byte-code */
  is_find("--- Header ---"); is_find("\n"); is_at++;
  is_int(csxh_f[5], "the version is listed wrongly"); is_eol(); is_int(vf_u(csxh_f + 6, 2), "the number of strings is listed wrongly"); is_eol(); is_int(vf_u(csxh_f + 8, 4), "the string table's place is listed wrongly"); is_eol(); is_int(vf_u(csxh_f + 12, 4), "the byte-code's place is listed wrongly"); is_eol();
}
/* a place in a file of n bytes: every place inside, its end, and far outside */
static uint64_t is_place(size_t n, const char* what) { static const uint32_t far[] = {0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF}; uint64_t k = csx_pick(0, n + 5, what); return k <= n + 1 ? k : far[k - n - 2]; }
static uint64_t is_few(int n, const char* what) { static const uint16_t far[] = {300, 0x7FFF, 0x8000, 0xFFFF}; uint64_t k = csx_pick(0, n + 4, what); return k <= (uint64_t)n ? k : far[k - n - 1]; }
static const uint8_t IS_TY[] = {OP_IO_U8, OP_IO_U16, OP_IO_U32, OP_IO_U64, OP_IO_I8, OP_IO_I16, OP_IO_I32, OP_IO_I64, OP_IO_F32, OP_IO_F64, OP_IO_BOOL, 0, 0xFF, OP_SIN};
static void is_type(uint8_t* q, int n) { int at = q[0] == OP_CONST_CHECK ? 3 : q[0] == OP_CONST_WRITE || q[0] == OP_RANGE_CHECK || q[0] == OP_ENUM_CHECK || q[0] == OP_EMIT ? 1 : 0; if (at && at < n) q[at] = IS_TY[csx_pick(0, sizeof IS_TY - 1, "type")]; }
