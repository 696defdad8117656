/* Compiling source text: result, diagnostics and image against an independent reading of the image. */
#include "verify.h"
#include "compiler.h"
static char csxh_src[6000]; static uint8_t csxh_img[4000]; static size_t csxh_in;
#ifndef FILES
#define FILES
#endif
static int so_keyoff(uint8_t op, int* second) {
  *second = 0;
  switch (op) {
    case OP_ARR_DYNAMIC: *second = 3; return 1;
    case OP_ENTER_STRUCT: case OP_META_NAME: case OP_LOAD_CTX: case OP_STORE_CTX: case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64: case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64: case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL:
    case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF: case OP_ARR_FIXED: case OP_RAW_BYTES: case OP_CONST_CHECK: case OP_SWITCH: case OP_SWITCH_TABLE: return 1;
    default: return 0;
  }
}
static int csxh_keyuse[400];
/* the image of a successful compilation */
static void so_image(const uint8_t* im, size_t n) {
  csx_assert(n >= 16 && !memcmp(im, "CNDIL\1", 6), "the image has no valid header");
  size_t cnt = vf_u(im + 6, 2), so = vf_u(im + 8, 4), bo = vf_u(im + 12, 4), at = so, i;
  csx_assert(so >= 16 && so <= bo && bo <= n, "the image's offsets are inconsistent");
  static size_t csxh_pos[400]; csx_assert(cnt < 400, "harness: too many names");
  for (i = 0; i < cnt; i++) { csxh_pos[i] = at; while (at < bo && im[at]) at++; csx_assert(at < bo, "the string table runs into the byte-code"); at++; }
  csx_assert(at == bo, "the string table and the byte-code do not meet");
  for (i = 0; i < cnt; i++) for (size_t j = 0; j < i; j++) csx_assert(strcmp((const char*)im + csxh_pos[i], (const char*)im + csxh_pos[j]) != 0, "the string table holds a name twice");
  memset(csxh_keyuse, 0, sizeof csxh_keyuse);
  const uint8_t* p = im + bo; size_t len = n - bo, ip = 0; static size_t csxh_ts[40], csxh_te[40]; int nt = 0;
  while (ip < len) {
    if (nt && ip == csxh_ts[nt - 1]) { ip = csxh_te[--nt]; continue; }
    uint8_t op = p[ip]; size_t z, te = 0, ts = 0;
    if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
      csx_assert(len - ip >= 7, "a truncated instruction is emitted");
      z = 7; ts = ip + 7 + vf_u(p + ip + 3, 4);
      csx_assert(ts <= len && len - ts >= (op == OP_SWITCH ? 6 : 20), "a jump table outside the program is emitted");
      uint64_t k = op == OP_SWITCH ? vf_u(p + ts, 2) : vf_u(p + ts + 8, 8) - vf_u(p + ts, 8) + 1;
      csx_assert(k <= len, "a jump table outside the program is emitted");
      te = ts + (op == OP_SWITCH ? 6 + 12 * k : 20 + 4 * k);
      csx_assert(te <= len, "a jump table outside the program is emitted");
    } else z = vf_size(p + ip, len - ip);
    csx_assert(z != 0, "an undefined instruction is emitted"); csx_assert(z <= len - ip, "a truncated instruction is emitted");
    int s2, s1 = so_keyoff(op, &s2);
    for (int q = 0; q < 2; q++) { int o = q ? s2 : s1; if (o) { size_t k = vf_u(p + ip + o, 2); csx_assert(k < cnt, "a key id without a name is emitted"); csxh_keyuse[k] = 1; } }
    ip += z;
    if (te) { csx_assert(nt < 40, "harness: nesting"); csxh_ts[nt] = ts; csxh_te[nt++] = te; }
  }
  csx_assert(ip == len && nt == 0, "the program ends inside an instruction");
  for (i = 0; i < cnt; i++) csx_assert(csxh_keyuse[i], "the string table holds a name nothing refers to");
  cnd_program g; csx_assert(cnd_program_load_il(&g, im, n) == CND_ERR_OK, "the compiled image does not load");
  csx_assert(cnd_verify_program(&g) == CND_ERR_OK, "the compiled program is rejected by the verifier");
}
static int so_compile(const char* s, const char* name, int json) {
  csx_file(name, s, strlen(s)); FILES
  int rc = cnd_compile_file(name, "o.il", json, 0);
  csxh_in = csx_file_get("o.il", csxh_img, sizeof csxh_img);
  if (csxh_in == (size_t)-1) csxh_in = 0;
  return rc;
}
static void so_any(const char* s, int json) {
  csx_capture(1);
  int rc = so_compile(s, "t.cnd", json);
  csx_note("rc", rc != 0); csx_reach(rc ? "rejected" : "compiled");
  csx_assert(csxh_in <= sizeof csxh_img, "harness: image too long");
  if (rc) { csx_assert(csxh_in == 0, "a failed compilation writes an image"); csx_assert(csx_out_count(1) > 0 || csx_out_count(2) > 0, "a failed compilation prints no diagnostic"); }
  else { csx_assert(csxh_in > 0, "a successful compilation writes no image"); so_image(csxh_img, csxh_in); }
}
