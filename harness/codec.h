/* Independent reference codec used as the oracle: a schema's meaning is written as a short C function over these
   primitives (generated by lib/schemas.py), and compared with the real compiler + VM for all inputs. */
#ifndef CODEC_H
#define CODEC_H
#include "csx.h"
#include "concordia.h"
#include "compiler.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
#ifndef NSUP
#define NSUP 24
#endif
#ifndef MAXEV
#define MAXEV 48
#endif
#ifndef STRCAP
#define STRCAP 4
#endif
#ifndef CNTMAX
#define CNTMAX 2
#endif
enum { ENC = 0, DEC = 1 };
enum { E_OK = 0, E_OOB = 1, E_OP = 2, E_VAL = 3, E_CB = 4, E_SOV = 5, E_SUN = 6, E_CRC = 7, E_ARITH = 8 };
#define T_RAW 0xFE
#define T_NONE 0xFD
typedef struct { uint8_t t; uint16_t key; uint64_t v; } ev_t;
typedef struct { ev_t e[MAXEV]; int n; } tr_t;
#define EMPTYSTR 0xE3E3E3E3u     /* an empty string outside the message: an absent optional string */
static cnd_program csxh_prog;
static uint8_t* csxh_img; static size_t csxh_imgn;
static uint64_t csxh_sup[NSUP]; static int csxh_nsup;           /* host scalar values, by call order */
static char csxh_strs[6][STRCAP + 2]; static int csxh_nstr;      /* host strings */
static uint32_t csxh_cnt[6]; static int csxh_ncnt;               /* host array counts */
static tr_t csxh_vt, csxh_ot;                                    /* traces: VM and oracle */
static int csxh_raw;                                             /* host accepts bulk byte arrays */
static int csxh_failat;                                          /* host fails at this call, -1 never */
static int csxh_calls, csxh_after;
static uint8_t* csxh_data; static size_t csxh_len;

#ifdef SPECIALS
static const uint64_t csxh_special[] = {SPECIALS};
/* even values come from a list, whatever the solver picks */
#ifndef SPAT
#define SPAT 0
#endif
static uint64_t sup(int i) { while (csxh_nsup <= i && csxh_nsup < NSUP) { if (csxh_nsup == SPAT) csxh_sup[SPAT] = csx_concrete(csxh_special[csx_concrete(csx_pick(0, sizeof csxh_special / 8 - 1, "value"))]); else csx_bytes(&csxh_sup[csxh_nsup], 8, "value"); csxh_nsup++; } return csxh_sup[i]; }
#else
static uint64_t sup(int i) { while (csxh_nsup <= i && csxh_nsup < NSUP) { csx_bytes(&csxh_sup[csxh_nsup++], 8, "value"); } csx_assert(i < NSUP, "harness: too many values"); return csxh_sup[i]; }
#endif
static const char* supstr(int i) {
  while (csxh_nstr <= i && csxh_nstr < 6) { char* s = csxh_strs[csxh_nstr++]; csx_bytes(s, STRCAP + 1, "string"); s[STRCAP + 1] = 0; }
  return csxh_strs[i];
}
static uint32_t supcnt(int i) { while (csxh_ncnt <= i && csxh_ncnt < 6) csxh_cnt[csxh_ncnt++] = (uint32_t)csx_pick(0, CNTMAX, "count"); return csxh_cnt[i]; }

static int cd_size(uint8_t t) {
  switch (t) { case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: return 1; case OP_IO_U16: case OP_IO_I16: return 2; case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4; default: return 8; }
}
static uint64_t cd_norm(uint8_t t, uint64_t v) {
  switch (t) {
    case OP_IO_U8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: return (uint8_t)v; case OP_IO_U16: return (uint16_t)v; case OP_IO_U32: case OP_IO_F32: return (uint32_t)v;
    case OP_IO_I8: return (uint64_t)(int64_t)(int8_t)v; case OP_IO_I16: return (uint64_t)(int64_t)(int16_t)v; case OP_IO_I32: return (uint64_t)(int64_t)(int32_t)v; default: return v; }
}
static void tr_add(tr_t* t, uint8_t ty, uint16_t key, uint64_t v) {
  if (t->n < MAXEV) { t->e[t->n].t = ty; t->e[t->n].key = key; t->e[t->n].v = v; }
  t->n++;
  csx_assert(t->n <= MAXEV, "more host callbacks than the schema can cause");
}
static uint64_t tr_last(tr_t* t, uint16_t key, int* found) {
  for (int i = t->n - 1; i >= 0; i--) if (t->e[i].key == key && (t->e[i].t != OP_ENTER_STRUCT) && (t->e[i].t < OP_STR_NULL || t->e[i].t == T_RAW || t->e[i].t == OP_STORE_CTX)) { *found = 1; return t->e[i].v; }
  *found = 0; return 0;
}
/* ---- the host: a map from keys to values, like the CLI's JSON host ---- */
static int csxh_hiv, csxh_his, csxh_hic; static uint32_t csxh_lastcount;
static cnd_error_t cd_cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t type, void* p) {
  if (csxh_calls == csxh_failat) { csxh_calls++; return CND_ERR_CALLBACK; }
  if (csxh_failat >= 0 && csxh_calls > csxh_failat) csxh_after++;
  csxh_calls++;
  int f;
  switch (type) {
    case OP_ENTER_STRUCT: tr_add(&csxh_vt, type, key, 0); return CND_ERR_OK;
    case OP_EXIT_STRUCT: tr_add(&csxh_vt, type, 0, 0); return CND_ERR_OK;
    case OP_ARR_END: tr_add(&csxh_vt, type, 0, 0); return CND_ERR_OK;
    case OP_ARR_PRE_U8: if (ctx->mode == CND_MODE_ENCODE) *(uint8_t*)p = (uint8_t)supcnt(csxh_hic++); csxh_lastcount = *(uint8_t*)p; tr_add(&csxh_vt, OP_ARR_FIXED, key, csxh_lastcount); return CND_ERR_OK;
    case OP_ARR_PRE_U16: if (ctx->mode == CND_MODE_ENCODE) *(uint16_t*)p = (uint16_t)supcnt(csxh_hic++); csxh_lastcount = *(uint16_t*)p; tr_add(&csxh_vt, OP_ARR_FIXED, key, csxh_lastcount); return CND_ERR_OK;
    case OP_ARR_PRE_U32: if (ctx->mode == CND_MODE_ENCODE) *(uint32_t*)p = supcnt(csxh_hic++); csxh_lastcount = *(uint32_t*)p; tr_add(&csxh_vt, OP_ARR_FIXED, key, csxh_lastcount); return CND_ERR_OK;
    case OP_ARR_FIXED: case OP_ARR_DYNAMIC: csxh_lastcount = *(uint32_t*)p; tr_add(&csxh_vt, OP_ARR_FIXED, key, csxh_lastcount); return CND_ERR_OK;
    case OP_ARR_EOF: tr_add(&csxh_vt, type, key, 0); return CND_ERR_OK;
    case OP_RAW_BYTES: {
      if (!csxh_raw) { csxh_calls--; return CND_ERR_CALLBACK; }
      for (uint32_t i = 0; i < csxh_lastcount && i < MAXEV; i++) {
        if (ctx->mode == CND_MODE_ENCODE) ((uint8_t*)p)[i] = (uint8_t)sup(csxh_hiv++);
        tr_add(&csxh_vt, T_RAW, key, ((uint8_t*)p)[i]);
      }
      return CND_ERR_OK;
    }
    case OP_CTX_QUERY: case OP_LOAD_CTX: { uint64_t v = tr_last(&csxh_vt, key, &f); if (!f) return CND_ERR_CALLBACK; *(uint64_t*)p = v; return CND_ERR_OK; }
    case OP_STORE_CTX: tr_add(&csxh_vt, OP_STORE_CTX, key, *(uint64_t*)p); return CND_ERR_OK;
    case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
      if (ctx->mode == CND_MODE_ENCODE) { *(const char**)p = supstr(csxh_his); tr_add(&csxh_vt, type, key, (uint64_t)csxh_his); csxh_his++; }
      else {
#ifdef CONCSTR
        for (int i = type == OP_STR_PRE_U8 ? 1 : type == OP_STR_PRE_U16 ? 2 : type == OP_STR_PRE_U32 ? 4 : 0; i > 0; i--) csx_concrete(((uint8_t*)p)[-i]);
#endif
        tr_add(&csxh_vt, type, key, ((uint8_t*)p < csxh_data || (uint8_t*)p > csxh_data + csxh_len) && !*(char*)p ? EMPTYSTR : (uint64_t)((uint8_t*)p - csxh_data));
      }
      return CND_ERR_OK;
    default: {
      int n = cd_size(type);
      uint64_t v = 0;
      if (ctx->mode == CND_MODE_ENCODE) { v = sup(csxh_hiv++); memcpy(p, &v, n); } else memcpy(&v, p, n);
      tr_add(&csxh_vt, type, key, cd_norm(type, v)); return CND_ERR_OK;
    }
  }
}
/* ---- compile the schema with the real compiler ---- */
static int cd_compile(const char* src) {
  csx_file("t.cnd", src, strlen(src));
  return cnd_compile_file("t.cnd", "t.il", 0, 0);
}
static int cd_load(void) {
  static uint8_t tmp[8192];
  size_t n = csx_file_get("t.il", tmp, sizeof tmp);
  if (n == (size_t)-1 || n > sizeof tmp) return 1;
  csxh_img = malloc(n ? n : 1); memcpy(csxh_img, tmp, n); csxh_imgn = n;
  return cnd_program_load_il(&csxh_prog, csxh_img, n) != CND_ERR_OK;
}
/* ---- reference codec ---- */
typedef struct { int mode; uint8_t* b; size_t n, cur; int bit; int st; int iv, is, ic; int opt, absent; int endbe; } or_t;
static or_t O;
static uint16_t K(const char* name) { uint16_t k = cnd_get_key_id(&csxh_prog, name); csx_assert(k != 0xFFFF, "a field name is missing from the string table"); return k; }
static void o_ev(uint8_t t, uint16_t k, uint64_t v) { if (O.st) return; if (csxh_ot.n < MAXEV) { csxh_ot.e[csxh_ot.n].t = t; csxh_ot.e[csxh_ot.n].key = k; csxh_ot.e[csxh_ot.n].v = v; } csxh_ot.n++; }
static void o_fail(int e) { if (!O.st) O.st = e; }
static void o_align(void) { if (!O.st && O.bit) { O.bit = 0; O.cur++; } }
static int o_room(size_t n) { if (O.st) return 0; if (n > O.n || O.cur > O.n - n) { o_fail(E_OOB); return 0; } return 1; }
static void o_put(uint64_t v, int n, int be) { for (int i = 0; i < n; i++) O.b[O.cur + (be ? n - 1 - i : i)] = (uint8_t)(v >> (8 * i)); O.cur += n; }
static uint64_t o_get(int n, int be) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)O.b[O.cur + (be ? n - 1 - i : i)] << (8 * i); O.cur += n; return v; }
static uint64_t o_getat(size_t at, int n, int be) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)O.b[at + (be ? n - 1 - i : i)] << (8 * i); return v; }
static uint64_t o_sup(void) { return sup(O.iv++); }
/* scalar field of type t (VM type code), big endian?; reports cd_norm value; the written bytes are the low bytes of the value */
static uint64_t F(const char* name, uint8_t t, int be) {
  int n = cd_size(t); uint64_t v; int opt = O.opt; O.opt = 0;
  o_align();
  if (O.st) return 0;
  O.absent = 0;
  if (opt && (size_t)n > O.n - O.cur) { O.absent = 1; if (O.mode == ENC) O.iv++; o_ev(t, K(name), O.mode == ENC ? cd_norm(t, sup(O.iv - 1)) : 0); return 0; }
  if (!o_room(n)) return 0;
  if (O.mode == ENC) { v = cd_norm(t, o_sup()); o_ev(t, K(name), v); if (t == OP_IO_BOOL && v > 1) { o_fail(E_VAL); return v; } o_put(v, n, be); }
  else { v = cd_norm(t, o_get(n, be)); if (t == OP_IO_BOOL && v > 1) { o_fail(E_VAL); return v; } o_ev(t, K(name), v); }
  return v;
}
#define U8(n) F(n, OP_IO_U8, 0)
#define I8(n) ((int64_t)F(n, OP_IO_I8, 0))
#define BOOL(n) F(n, OP_IO_BOOL, 0)
#define U16(n, be) F(n, OP_IO_U16, be)
#define U32(n, be) F(n, OP_IO_U32, be)
#define U64(n, be) F(n, OP_IO_U64, be)
#define I16(n, be) ((int64_t)F(n, OP_IO_I16, be))
#define I32(n, be) ((int64_t)F(n, OP_IO_I32, be))
#define I64(n, be) ((int64_t)F(n, OP_IO_I64, be))
#define F32(n, be) F(n, OP_IO_F32, be)
#define F64(n, be) F(n, OP_IO_F64, be)
/* bits: little endian packs from bit 0 up, big endian from bit 7 down, whole value most significant bit first */
static uint64_t o_bits(int n, int be, uint64_t v, int put) {
  uint64_t r = 0;
  /* whole bytes at a byte boundary in little endian are the same as bit order; big endian likewise */
  for (int i = 0; i < n; i++) {
    uint8_t m = be ? 0x80 >> O.bit : 1 << O.bit; int pos = be ? n - 1 - i : i;
    if (put) { uint8_t one = (uint8_t)(0 - (pos < 64 ? v >> pos & 1 : 0)); O.b[O.cur] = (uint8_t)((O.b[O.cur] & ~m) | (m & one)); }
    else if (pos < 64) r |= (uint64_t)((O.b[O.cur] & m) != 0) << pos;
    if (++O.bit == 8) { O.bit = 0; O.cur++; }
  }
  return r;
}
static int o_broom(uint64_t n) { if (O.st) return 0; if ((uint64_t)O.n * 8 < O.cur * 8 + O.bit + n) { o_fail(E_OOB); return 0; } return 1; }
/* the value is the host's: conditions of an encoding host see what it supplied, truncated only on the wire */
static uint64_t B(const char* name, uint8_t t, int n, int be) {
  uint64_t v; int opt = O.opt; O.opt = 0;
  if (O.st) return 0;
  if (opt && (uint64_t)O.n * 8 < O.cur * 8 + O.bit + n) { v = O.mode == ENC ? cd_norm(t, o_sup()) : 0; o_ev(t, K(name), v); return 0; }
  if (!o_broom(n)) return 0;
  if (O.mode == ENC) {
    v = cd_norm(t, o_sup()); o_ev(t, K(name), v);
    if (t == OP_IO_BIT_BOOL && v > 1) { o_fail(E_VAL); return v; }
    o_bits(n, be, v, 1);
  } else {
    v = o_bits(n, be, 0, 0);
    if (t == OP_IO_BIT_I && n < 64) v = (uint64_t)((int64_t)(v << (64 - n)) >> (64 - n));
    o_ev(t, K(name), v);
  }
  return v;
}
#define BU(name, n, be) B(name, OP_IO_BIT_U, n, be)
#define BI(name, n, be) ((int64_t)B(name, OP_IO_BIT_I, n, be))
#define BB(name, be) B(name, OP_IO_BIT_BOOL, 1, be)
static void PAD(int n, int be) { if (!o_broom(n)) return; if (O.mode == ENC) o_bits(n, be, 0, 1); else o_bits(n, be, 0, 0); }
static void FILL(int one, int be) { if (O.st || !O.bit) return; int n = 8 - O.bit; if (!o_broom(n)) return; if (O.mode == ENC) o_bits(n, be, one ? ~0ull : 0, 1); else o_bits(n, be, 0, 0); }
static void CONST(const char* name, uint8_t t, uint64_t val, int be) {
  int n = cd_size(t); o_align(); if (!o_room(n)) return;
  if (O.mode == ENC) o_put(val, n, be);
  else { uint64_t v = cd_norm(t, o_get(n, be)); if (v != cd_norm(t, val)) { o_fail(E_VAL); return; } o_ev(t, K(name), v); }
}
static void CHECK(int ok) { if (!ok) o_fail(E_VAL); }
static void ENTER(const char* n) { o_ev(OP_ENTER_STRUCT, K(n), 0); }
static void EXITS(void) { o_ev(OP_EXIT_STRUCT, 0, 0); }
/* strings: returns nothing; content checked through the wire bytes */
static void STRZ(const char* name, unsigned max) {
  int opt = O.opt; O.opt = 0;
  o_align(); if (O.st) return;
  if (opt && O.mode == DEC && O.cur >= O.n) { o_ev(OP_STR_NULL, K(name), EMPTYSTR); return; }
  if (O.mode == ENC) {
    const char* s = supstr(O.is); o_ev(OP_STR_NULL, K(name), (uint64_t)O.is); O.is++;
    size_t l = 0; while (l < max && s[l]) l++;
    if (!o_room(l + 1)) return;
    for (size_t i = 0; i < l; i++) O.b[O.cur + i] = (uint8_t)s[i];
    O.b[O.cur + l] = 0; O.cur += l + 1;
  } else {
    size_t l = 0; while (l < max && O.cur + l < O.n && O.b[O.cur + l]) l++;
    if (O.cur + l >= O.n) { o_fail(E_OOB); return; }
    if (O.b[O.cur + l]) { o_fail(E_VAL); return; }
    o_ev(OP_STR_NULL, K(name), O.cur); O.cur += l + 1;
  }
}
static void STRP(const char* name, int pn, int be) {
  uint8_t t = pn == 1 ? OP_STR_PRE_U8 : pn == 2 ? OP_STR_PRE_U16 : OP_STR_PRE_U32;
  int opt = O.opt; O.opt = 0;
  o_align(); if (O.st) return;
  if (opt && O.mode == DEC && (size_t)pn > O.n - O.cur) { o_ev(t, K(name), EMPTYSTR); return; }
  if (O.mode == ENC) {
    const char* s = supstr(O.is); o_ev(t, K(name), (uint64_t)O.is); O.is++;
    size_t l = 0; while (s[l]) l++;
    if (!o_room(pn + l)) return;
    o_put(l, pn, be); for (size_t i = 0; i < l; i++) O.b[O.cur + i] = (uint8_t)s[i]; O.cur += l;
  } else {
    if (!o_room(pn)) return;
    uint64_t l = o_get(pn, be);
    if (l > O.n - O.cur) { o_fail(E_OOB); return; }
    o_ev(t, K(name), O.cur); O.cur += l;
  }
}
/* arrays: A_* return the count to iterate */
static uint32_t A_FIX(const char* name, uint32_t n) { o_align(); o_ev(OP_ARR_FIXED, K(name), n); return O.st ? 0 : n; }
static uint32_t A_PRE(const char* name, int pn, int be) {
  int opt = O.opt; O.opt = 0;
  o_align(); if (O.st) return 0;
  uint32_t c;
  if (opt && O.mode == DEC && (size_t)pn > O.n - O.cur) { o_ev(OP_ARR_FIXED, K(name), 0); return 0; }
  if (O.mode == ENC) { c = supcnt(O.ic++); o_ev(OP_ARR_FIXED, K(name), c); if (!o_room(pn)) return 0; o_put(c, pn, be); }
  else { if (!o_room(pn)) return 0; c = (uint32_t)o_get(pn, be); o_ev(OP_ARR_FIXED, K(name), c); }
  return c;
}
static void A_END(uint32_t count) { if (count) o_ev(OP_ARR_END, 0, 0); }
static void A_EOF(const char* name) { (void)name; o_align(); }
/* byte arrays: if the host takes them in bulk and they fit, no per-element calls and no end call */
static int A_BULK(const char* ename, uint32_t count) {
  if (O.st || !count || !csxh_raw || count > O.n - O.cur) return 0;
  for (uint32_t i = 0; i < count; i++) { if (O.mode == ENC) O.b[O.cur + i] = (uint8_t)o_sup(); o_ev(T_RAW, K(ename), O.b[O.cur + i]); }
  O.cur += count; return 1;
}
#define BYTES(ename, t, count) do { uint32_t c_ = (count); if (!A_BULK(ename, c_)) { for (uint32_t i_ = 0; i_ < c_ && !O.st; i_++) F(ename, t, 0); A_END(c_); } } while (0)
static void OPT(void) { O.opt = 1; }
static uint64_t o_crc(size_t n, int width, uint64_t poly, uint64_t init, uint64_t xorout, int refin, int refout) {
  uint64_t top = 1ull << (width - 1), mask = (top << 1) - 1, crc = init & mask;
  for (size_t i = 0; i < n; i++)
    for (int b = 0; b < 8; b++) {
      uint64_t in = refin ? O.b[i] >> b & 1 : O.b[i] >> (7 - b) & 1;
      uint64_t fb = ((crc & top) != 0) ^ in;
      crc = (crc << 1) & mask; crc ^= (0 - fb) & poly & mask;
    }
  if (refout) { uint64_t r = 0; for (int i = 0; i < width; i++) r |= (crc >> i & 1) << (width - 1 - i); crc = r; }
  return (crc ^ xorout) & mask;
}
static void CRC(int width, uint64_t poly, uint64_t init, uint64_t xorout, int refin, int refout, int be) {
  o_align(); if (!o_room(width / 8)) return;
  uint64_t c = o_crc(O.cur, width, poly, init, xorout, refin, refout);
  if (O.mode == ENC) o_put(c, width / 8, be); else if (o_get(width / 8, be) != c) o_fail(E_CRC);
}
/* computed field: value v (already converted to the type's bits) */
static void EXPR(const char* name, uint8_t t, uint64_t v, int be) {
  int n = cd_size(t);
  o_ev(OP_STORE_CTX, K(name), v);
  o_align(); if (!o_room(n)) return;
  uint64_t want = n == 8 ? v : v & ((1ull << (8 * n)) - 1);
  if (O.mode == ENC) o_put(want, n, be);
  else if (o_get(n, be) != want) o_fail(E_VAL);
}
static double D(uint64_t b) ;
/* floating computed fields: written exactly; on decode the same bits are accepted and clearly different values refused (rounding differences of a few units are left open) */
static void EXPRF(const char* name, uint8_t t, double v, int be) {
  int n = cd_size(t); uint64_t b = 0; if (n == 4) { float f = (float)v; memcpy(&b, &f, 4); } else memcpy(&b, &v, 8);
  uint64_t db; memcpy(&db, &v, 8); o_ev(OP_STORE_CTX, K(name), db);
  o_align(); if (!o_room(n)) return;
  if (O.mode == ENC) { o_put(b, n, be); return; }
  uint64_t w = o_get(n, be); if (w == b) return;
  double d; if (n == 4) { float f; memcpy(&f, &w, 4); d = (double)f - (double)(float)v; } else { memcpy(&d, &w, 8); d -= v; }
  csx_assume(!(d > -0.001 && d < 0.001));
  o_fail(E_VAL);
}
static double D(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t DB(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static float FL(uint64_t b) { uint32_t u = (uint32_t)b; float d; memcpy(&d, &u, 4); return d; }
static uint64_t FB(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
/* transformed scalars: the host sees the engineering value (int64 for integer arithmetic, double for curves); the wire carries the raw one */
static int cd_sgn(uint8_t t) { return t == OP_IO_I8 || t == OP_IO_I16 || t == OP_IO_I32 || t == OP_IO_I64; }
static int cd_flt(uint8_t t) { return t == OP_IO_F32 || t == OP_IO_F64; }
static int64_t o_d2i(double d) { return d != d ? 0 : d <= -9223372036854775808.0 ? INT64_MIN : d >= 9223372036854775808.0 ? INT64_MAX : (int64_t)d; }
/* double to a raw field: floats convert, integers round to nearest and saturate */
static uint64_t o_raw(uint8_t t, double d) {
  int n = cd_size(t);
  if (t == OP_IO_F32) return FB((float)d);
  if (t == OP_IO_F64) return DB(d);
  d = round(d);
  if (cd_sgn(t)) { int64_t hi = (int64_t)(UINT64_MAX >> (65 - 8 * n)), v = o_d2i(d); return (uint64_t)(v > hi ? hi : v < -hi - 1 ? -hi - 1 : v); }
  uint64_t hi = UINT64_MAX >> (64 - 8 * n);
  if (!(d > 0)) return 0;
  if (d >= 18446744073709551616.0) return hi;
  uint64_t v = (uint64_t)d; return v > hi ? hi : v;
}
static double o_num(uint8_t t, uint64_t raw) { return t == OP_IO_F32 ? (double)FL(raw) : t == OP_IO_F64 ? D(raw) : cd_sgn(t) ? (double)(int64_t)raw : (double)raw; }
static int64_t o_arith(int op, int64_t a, int64_t k) {
  switch (op) { case '+': return (int64_t)((uint64_t)a + (uint64_t)k); case '-': return (int64_t)((uint64_t)a - (uint64_t)k); case '*': return (int64_t)((uint64_t)a * (uint64_t)k);
    default: return k == 0 ? a : k == -1 ? (int64_t)(0 - (uint64_t)a) : a / k; }
}
static int o_gone(const char* name, uint8_t t, int n) { int opt = O.opt; O.opt = 0; o_align(); O.absent = !O.st && opt && (size_t)n > O.n - O.cur; if (O.absent) o_ev(t, K(name), 0); return O.absent; }
static uint64_t TI(const char* name, uint8_t t, int be, int op, int64_t k) {
  int n = cd_size(t); uint64_t raw; o_align(); if (o_gone(name, t, n)) return 0; if (!o_room(n)) return 0;
  if (O.mode == ENC) {
    int64_t e = (int64_t)o_sup(); o_ev(OP_IO_I64, K(name), (uint64_t)e);
    int64_t r = o_arith(op == '+' ? '-' : op == '-' ? '+' : op == '*' ? '/' : '*', e, k);
    raw = t == OP_IO_F32 ? FB((float)r) : t == OP_IO_F64 ? DB((double)r) : cd_norm(t, (uint64_t)r);
    o_put(raw, n, be);
  } else { raw = cd_norm(t, o_get(n, be)); o_ev(OP_IO_I64, K(name), (uint64_t)o_arith(op, cd_flt(t) ? o_d2i(o_num(t, raw)) : (int64_t)raw, k)); }
  return raw;
}
static uint64_t TD(const char* name, uint8_t t, int be, double (*fwd)(double), double (*inv)(double)) {
  int n = cd_size(t); uint64_t raw; o_align(); if (o_gone(name, t, n)) return 0; if (!o_room(n)) return 0;
  if (O.mode == ENC) { double e = D(o_sup()); o_ev(OP_IO_F64, K(name), DB(e)); raw = cd_norm(t, o_raw(t, inv(e))); o_put(raw, n, be); }
  else { raw = cd_norm(t, o_get(n, be)); o_ev(OP_IO_F64, K(name), DB(fwd(o_num(t, raw)))); }
  return raw;
}
static double o_poly(const double* c, int n, double x) { double r = n ? c[n - 1] : 0; for (int i = n - 2; i >= 0; i--) r = r * x + c[i]; return r; }
/* piecewise linear through points (x0,y0,x1,y1,...): the last segment extends to both sides */
/* Newton's method with the documented limits; used where the host value is concrete */
static double o_polyinv(const double* c, int n, double y) {
  double x = 0;
  for (int it = 0; it < 64; it++) {
    double v = n ? c[n - 1] : 0, d = 0;
    for (int i = n - 2; i >= 0; i--) { d = d * x + v; v = v * x + c[i]; }
    double e = v - y, s;
    if (e == 0) break;
    if (d == 0) { x += 1; continue; }
    s = e / d; x -= s;
    if (s > -1e-9 && s < 1e-9) break;
  }
  return x;
}
static double o_spline(const double* c, int n, double x) {
  for (int i = 0; i + 1 < n; i++) if ((x >= c[2 * i] && x <= c[2 * i + 2]) || i == n - 2)
    return c[2 * i + 2] == c[2 * i] ? c[2 * i + 1] : c[2 * i + 1] + (x - c[2 * i]) * (c[2 * i + 3] - c[2 * i + 1]) / (c[2 * i + 2] - c[2 * i]);
  return 0;
}
static double o_splinv(const double* c, int n, double y) {
  for (int i = 0; i + 1 < n; i++) if ((y >= c[2 * i + 1] && y <= c[2 * i + 3]) || (y <= c[2 * i + 1] && y >= c[2 * i + 3]))
    return c[2 * i + 3] == c[2 * i + 1] ? c[2 * i] : c[2 * i] + (y - c[2 * i + 1]) * (c[2 * i + 2] - c[2 * i]) / (c[2 * i + 3] - c[2 * i + 1]);
  return 0;
}
static int cd_notes;
static void cd_compare(int st, size_t cur, int bit, const uint8_t* vb, const uint8_t* ob, size_t n) {
  csx_note("status", (uint64_t)st);
  csx_note("calls", (uint64_t)csxh_vt.n);
  if (st != O.st) {
    csx_assert(!(st == E_OK && O.st == E_OOB), "success although the message does not fit the buffer");
    csx_assert(!(st == E_OK), "success where the schema requires an error");
    csx_assert(!(O.st == E_OK), "error on a message the schema allows");
    csx_assert(0, "wrong error code");
  }
  int m = csxh_vt.n < csxh_ot.n ? csxh_vt.n : csxh_ot.n;
  for (int i = 0; i < m; i++) {
    ev_t *a = &csxh_vt.e[i], *b = &csxh_ot.e[i];
    csx_assert(a->t == b->t, "host callback of the wrong kind or out of order");
    csx_assert(a->key == b->key, "host callback with the wrong field name");
    csx_assert(a->v == b->v, "host callback with the wrong value");
  }
  if (st == E_OK) {
    csx_assert(csxh_vt.n == csxh_ot.n, "wrong number of host callbacks");
    csx_note("cursor", (uint64_t)cur);
    csx_assert(cur == O.cur && bit == O.bit, "final position differs from the schema's layout");
    for (size_t i = 0; i < n; i++) csx_assert(vb[i] == ob[i], O.mode == ENC ? "wire bytes differ from the schema's encoding" : "decoding modified the message");
    csx_reach("ok");
  } else csx_reach(st == E_OOB ? "short" : st == E_VAL ? "invalid" : st == E_CRC ? "crc" : st == E_CB ? "callback" : "error");
}
typedef void (*oracle_fn)(void);
/* mode, exact buffer size, raw-bytes host: one fully symbolic run against the oracle */
static void cd_run(int mode, size_t n, int raw, oracle_fn oracle) {
  csxh_raw = raw; csxh_failat = -1; csxh_len = n;
  csxh_data = malloc(n ? n : 1);
  uint8_t* ob = malloc(n ? n : 1);
  csx_bytes(csxh_data, n, mode == DEC ? "message" : "buffer");
  memcpy(ob, csxh_data, n);
  if (mode == DEC) csx_ro(csxh_data, n, 1);
  cnd_vm_ctx ctx; memset(&ctx, 0, sizeof ctx);
  cnd_init(&ctx, mode == ENC ? CND_MODE_ENCODE : CND_MODE_DECODE, &csxh_prog, csxh_data, n, cd_cb, 0);
  int st = cnd_execute(&ctx);
  memset(&O, 0, sizeof O); O.mode = mode; O.b = ob; O.n = n;
  oracle();
  cd_compare(st, ctx.cursor, ctx.bit_offset, csxh_data, ob, n);
}
#endif
