/* One VM instruction from an arbitrary machine state.
   program = PRE filler bytes, then the opcode and its (symbolic, possibly truncated) operands, then a tail.  The filler is
   ENTER_STRUCT, on which the host stops the run, so whatever offset the instruction continues at, the run ends there.
   The state before is any state satisfying the invariant INV; the state after must satisfy it too, and every access must
   stay inside the message, the program and the context. */
#include "csx.h"
#include "concordia.h"
#include <string.h>
#include <stdlib.h>
#define FILL OP_ENTER_STRUCT
enum { PRE = 18, ENC = 0, DEC = 1 };
static uint8_t* csxh_p; static size_t csxh_pn; static cnd_program csxh_prog;
static uint8_t* csxh_d; static size_t csxh_dn; static int csxh_cmax = -1, csxh_cont, csxh_calls, csxh_budget = 5, csxh_self, csxh_spec;
static cnd_vm_ctx* csxh_c; static char csxh_str[5]; static uint32_t csxh_cnt; static cnd_vm_ctx csxh_ctx;
static const double csxh_dbl[] = {0.0, 1.5, -3.0, 127.5, 1e30, -1e30, 0.0 / 0.0 * -1, 1.0 / 0.0, 255.0, 9.3e18};
static int st_size(uint8_t t) {
  switch (t) { case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: case OP_ARR_PRE_U8: return 1; case OP_IO_U16: case OP_IO_I16: case OP_ARR_PRE_U16: return 2;
    case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: case OP_ARR_PRE_U32: case OP_ARR_FIXED: case OP_ARR_DYNAMIC: return 4; default: return 8; }
}
static void st_inv(cnd_vm_ctx* c) {
  csx_assert(c->data_buffer == csxh_d && c->data_len == csxh_dn && c->program == &csxh_prog, "the run replaced the message or the program");
  csx_assert(csxh_prog.bytecode == csxh_p && csxh_prog.bytecode_len == csxh_pn, "the run changed the program");
  csx_assert(c->cursor <= csxh_dn, "the cursor left the message");
  csx_assert(c->bit_offset < 8 && (c->bit_offset == 0 || c->cursor < csxh_dn), "the bit position left the message");
  csx_assert(c->loop_depth <= CND_MAX_LOOP_DEPTH && c->expr_sp <= CND_MAX_EXPR_STACK, "a stack index left its stack");
  csx_assert(c->ip <= csxh_pn, "the instruction pointer left the program");
  for (int i = 0; i < CND_MAX_LOOP_DEPTH; i++) if (i < c->loop_depth) csx_assert(c->loop_stack[i].start_ip <= csxh_pn, "a loop starts outside the program");
  if (c->trans_type == CND_TRANS_POLY) csx_assert(c->trans_poly_data >= csxh_p && c->trans_poly_data + 8 * (size_t)c->trans_poly_count <= csxh_p + csxh_pn, "polynomial coefficients outside the program");
  if (c->trans_type == CND_TRANS_SPLINE) csx_assert(c->trans_spline_data >= csxh_p && c->trans_spline_data + 16 * (size_t)c->trans_spline_count <= csxh_p + csxh_pn, "spline points outside the program");
}
static cnd_error_t st_cb(cnd_vm_ctx* c, uint16_t key, uint8_t type, void* p) {
  csx_assert(c == csxh_c, "the host is called with another context");
  if (type == OP_ENTER_STRUCT && !csxh_self) { csxh_cont = 1; csx_reach("continued"); return CND_ERR_CALLBACK; }
  csxh_self = 0;
  csxh_calls++;
  if (csxh_budget-- <= 0) return CND_ERR_CALLBACK;
  int fail = csx_u8("host fails") & 1;
  if (p && type != OP_RAW_BYTES && type != OP_ENTER_STRUCT && type != OP_EXIT_STRUCT && type != OP_ARR_EOF && type != OP_ARR_END) {
    if (type >= OP_STR_NULL && type <= OP_STR_PRE_U32) {
      if (c->mode == CND_MODE_ENCODE) {
        int k = (int)csx_pick(0, 2, "string"); csx_bytes(csxh_str, 4, "text"); csxh_str[4] = 0;
        *(const char**)p = k == 0 ? (const char*)0 : k == 1 ? csxh_str : csxh_str + 4;
      } else if (type == OP_STR_NULL) { size_t n = strnlen((const char*)p, csxh_dn + 1); csx_note("len", n); }
    } else if (csxh_spec && type == OP_IO_F64) { double d = csxh_dbl[csx_concrete(csx_pick(0, sizeof csxh_dbl / sizeof *csxh_dbl - 1, "value"))]; memcpy(p, &d, 8); }
    else { uint64_t v = csx_u64("host value");
      if (csxh_cmax >= 0 && (type == OP_CTX_QUERY || (type >= OP_ARR_FIXED && type <= OP_ARR_PRE_U32) || type == OP_ARR_DYNAMIC)) csx_assume(v <= (uint64_t)csxh_cmax);
      memcpy(p, &v, st_size(type)); if (type >= OP_ARR_FIXED && type <= OP_ARR_PRE_U32) { csxh_cnt = 0; memcpy(&csxh_cnt, p, st_size(type)); } }
  }
  if (type == OP_RAW_BYTES && !fail && c->mode == CND_MODE_ENCODE && csxh_budget >= 0) {
    uint32_t n = csxh_cnt <= csxh_dn ? (uint32_t)csx_concrete(csxh_cnt) : 0;
    for (uint32_t i = 0; i < n; i++) ((uint8_t*)p)[i] = 0xA5;
  }
  return fail ? CND_ERR_CALLBACK : CND_ERR_OK;
}
/* a switch target: the first instructions, just outside, behind the table, far away (symbolic) */
static void st_target(uint8_t* p) {
  static const int32_t V[] = {-25, -26, 24, 25, 34, 35, 0x7fffffff, 0};
  int k = (int)csx_pick(0, 7, "target"); int32_t v = V[k];
  if (k == 7) { memcpy(&v, p, 4); csx_assume(v < -26 || v > 40); } else { p[0] = (uint8_t)v; p[1] = (uint8_t)((uint32_t)v >> 8); p[2] = (uint8_t)((uint32_t)v >> 16); p[3] = (uint8_t)((uint32_t)v >> 24); }
}
/* tail kinds: 0 filler, 1 symbolic loop body, 2 byte array body, 3 check after a field */
static void st_run(int op, int mode, int nop, int tail, int loops, int stack, int trans) {
  static uint8_t t[128]; size_t n = PRE, at = PRE;
  memset(t, FILL, sizeof t);
  if (trans == CND_TRANS_POLY || trans == CND_TRANS_SPLINE) for (int i = 0; i < 2; i++) { double v = i ? 2.0 : 0.5; memcpy(t + 8 * i, &v, 8); }
  if (nop < 0) csx_bytes(t + n, 1, "opcode"); else t[n] = (uint8_t)op;
  int ops = nop < 0 ? -nop : nop;
  csx_bytes(t + n + 1, ops, "operands");
  size_t cut = ops;
  if (csx_param(7)) t[n + csx_param(7)] = (uint8_t)csx_param(8);
  if (op == OP_ENUM_CHECK && nop >= 3) csx_assume((t[n + 2] | t[n + 3] << 8) >= (int)csx_param(9));
#define I32(o) ((int32_t)(t[n + o] | t[n + o + 1] << 8 | t[n + o + 2] << 16 | (uint32_t)t[n + o + 3] << 24))
  /* a jump back into its own operands executes other byte-code, which is another instance */
  if (nop > 0 && (op == OP_JUMP || op == OP_JUMP_IF_NOT)) csx_assume(I32(1) < -5 || I32(1) >= 0);
  if (tail == 0) cut = csx_pick(0, ops, "operand bytes present");
  if (nop > 0 && (op == OP_SWITCH || op == OP_SWITCH_TABLE) && cut == (size_t)ops) {
    static const uint16_t N[] = {0, 2}; static const uint8_t AT[] = {9, 21, 23, 27, 31}; int sw = op == OP_SWITCH, k = (int)csx_pick(0, 10, "table");
    for (int i = sw ? 0 : 2; i < (sw ? 2 : 5); i++) memcpy(t + n + AT[i], "\x18\0\0", 4);
    if (k == 0) { st_target(t + n + AT[sw ? csx_pick(0, 1, "which") : csx_pick(2, 4, "which")]); memset(t + n + 3, 0, 4); }
    else {  /* where the table is: behind, or (partly) outside the program */
      static const uint8_t W[] = {0, 18, 20, 23, 24, 28, 29, 33, 34, 35};
      if (k < 10) { t[n + 3] = W[k]; t[n + 4] = t[n + 5] = t[n + 6] = 0; for (int i = 7; i < 35; i++) if (i < 9 || !sw) t[n + i] = FILL; } else csx_assume(I32(3) < 0 || I32(3) > 40);
    }
    if (sw || k == 0) { static const uint64_t M[] = {7, 1ull << 63}; uint64_t a = M[sw ? csx_pick(0, 1, "value") : 0], b = a + 1; if (!sw && csx_pick(0, 1, "max")) b = ~0ull;
      memcpy(t + n + (sw ? 13 : 7), &a, 8); if (!sw) memcpy(t + n + 15, &b, 8); }
    if (sw) { uint16_t v = N[csx_pick(0, 1, "cases")]; t[n + 7] = (uint8_t)v; t[n + 8] = (uint8_t)(v >> 8); }
  }
  if (nop > 0 && cut < (size_t)ops) for (size_t i = 0; i < cut; i++) if (i + 1 != csx_param(7)) t[n + 1 + i] = FILL;   /* operands of a truncated instruction are not executed as opcodes */
  n += 1 + cut;
  if (tail == 1) { int k = (int)csx_param(9); csx_bytes(t + n, k, "body"); n += k; t[n++] = OP_ARR_END; }
  if (tail == 4) {   /* instructions of variable size in the skipped body; the bytes which determine the size are chosen */
    static const uint8_t B[] = {OP_SWITCH, OP_SWITCH_TABLE, OP_ENUM_CHECK, OP_TRANS_POLY, OP_TRANS_SPLINE, OP_ARR_EOF, OP_CONST_CHECK, OP_RANGE_CHECK, OP_JUMP}; static const uint8_t V[] = {0, 1, 4, 6, 0x10, 0x13, 0x19, 255};
    int b = (int)csx_pick(0, sizeof B - 1, "body opcode"); t[n] = B[b]; memset(t + n + 1, 0, 20);
    int p1 = b == 0 || b == 1 ? 3 : b == 6 ? 3 : b == 5 || b == 8 ? 2 : 1, p2 = b == 0 ? 7 : b == 1 ? 15 : 2;
    t[n + p1] = V[csx_pick(0, 7, "size byte")]; if (b < 3) t[n + p2] = V[csx_pick(0, 7, "size byte")]; if (b < 2) t[n + 6] = V[csx_pick(0, 7, "size byte")];
    n += csx_pick(0, 2, "body size") * 7 + 7; t[n++] = OP_ARR_END; tail = 1;
  }
  if (tail == 2) { t[n] = OP_IO_U8; csx_bytes(t + n + 1, 2, "element key"); t[n + 3] = OP_ARR_END; n += 4; }
  if (tail == 3) {   /* a check behind a field: of its type, or of another size */
    int k = (int)csx_pick(0, 3, "check"), ty = k == 3 ? (op == OP_IO_U8 ? OP_IO_U64 : OP_IO_U8) : op, z = st_size((uint8_t)ty);
    t[n] = k == 1 ? OP_ENUM_CHECK : OP_RANGE_CHECK; t[n + 1] = (uint8_t)ty; csx_bytes(t + n + 2, 2 * z + 2, "check operands");
    if (k == 1) { csx_assume((t[n + 2] | t[n + 3] << 8) >= 1); n += 4 + z; } else n += k == 2 ? 2 : 2 + 2 * z;
    if (k == 2) csxh_pn = 1;
  }
  if (cut == (size_t)ops && !csxh_pn) { memset(t + n, FILL, 6); n += 6; }
  if (tail == 1) csxh_cmax = 0;   /* the body is skipped */
  if (nop < 0) csxh_cmax = 2;
  csxh_pn = n; csxh_p = malloc(n); memcpy(csxh_p, t, n);
  csxh_dn = csx_param(6) >= 100 ? csx_param(6) - 100 : csx_pick(0, csx_param(6), "message size"); csxh_d = malloc(csxh_dn ? csxh_dn : 1); csx_bytes(csxh_d, csxh_dn, "message");
  cnd_program_load(&csxh_prog, csxh_p, n);
  csxh_c = &csxh_ctx;
#define c csxh_ctx
  memset(&c, 0, sizeof c);
  cnd_init(&c, mode == ENC ? CND_MODE_ENCODE : CND_MODE_DECODE, &csxh_prog, csxh_d, csxh_dn, st_cb, 0);
  c.ip = at;
  c.cursor = tail == 1 && op == OP_ARR_EOF ? csxh_dn : tail == 1 || tail == 3 ? 0 : csx_pick(0, csxh_dn, "cursor");
  if (c.cursor < csxh_dn) { c.bit_offset = csx_u8("bit offset"); csx_assume(c.bit_offset < 8); }
  c.endianness = (csx_u8("endian") & 1) ? CND_BE : CND_LE;
  c.is_next_optional = csx_u8("optional") & 1;
  if (loops) {
    static const int D[] = {0, 1, 7, 8}; c.loop_depth = D[csx_pick(0, 3, "loop depth")];
    for (int i = 0; i < CND_MAX_LOOP_DEPTH; i++) { c.loop_stack[i].start_ip = i == c.loop_depth - 1 && csx_pick(0, 1, "loop start") ? n : PRE - 1; c.loop_stack[i].remaining = csx_u32("remaining"); }
  }
  if (stack) {
    c.expr_sp = csx_pick(0, CND_MAX_EXPR_STACK, "stack depth");
    for (int i = 0; i < CND_MAX_EXPR_STACK; i++) if (i + 2 >= c.expr_sp && i < c.expr_sp) { if (op >= OP_FADD && op < OP_EQ_F) { double d = csxh_dbl[csx_pick(0, sizeof csxh_dbl / sizeof *csxh_dbl - 1, "stack")]; memcpy(&c.expr_stack[i], &d, 8); } else c.expr_stack[i] = csx_u64("stack"); }
  }
  if (trans) {
    c.trans_type = (cnd_trans_t)trans; c.trans_i_val = (int64_t)csx_u64("transform"); csxh_spec = 1;
    static const double FA[] = {0.5, 0.0, -3.0, 1e-300}; c.trans_f_factor = FA[trans == CND_TRANS_SCALE_F64 ? csx_pick(0, 3, "factor") : 0]; c.trans_f_offset = 1.0;
    c.trans_poly_data = csxh_p; c.trans_poly_count = trans == CND_TRANS_POLY ? csx_pick(0, 2, "coefficients") : 0; c.trans_spline_data = csxh_p; c.trans_spline_count = trans == CND_TRANS_SPLINE ? csx_pick(0, 1, "points") : 0;
  }
  csxh_self = op == OP_ENTER_STRUCT && nop >= 0;
  csx_ro(csxh_p, n, 1);
  csx_freeze_globals();
  int st = cnd_execute(&c);
  csx_assert(st >= 0 && st <= 8, "an undefined status");
  if (st == CND_ERR_OK || csxh_cont) st_inv(&c);   /* otherwise the run is over and the context is not used again */
  csx_assert(c.cursor <= csxh_dn, "the cursor left the message");
  csx_reach("end");
  csx_note("st", st); csx_note("cursor", c.cursor);
}
