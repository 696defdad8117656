/* The verifier against an independent description of the instruction set, and accepted programs against the VM. */
#include "csx.h"
#include "concordia.h"
#include <string.h>
#include <stdlib.h>
static cnd_program csxh_prog; static uint8_t* csxh_p; static size_t csxh_pn; static int csxh_calls;
static uint64_t vf_u(const uint8_t* p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static int vf_tsz(uint8_t t) { switch (t) { case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: return 1; case OP_IO_U16: case OP_IO_I16: return 2; case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4; case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8; default: return 0; } }
/* size of the instruction at p (n bytes left) after docs/include: 0 = undefined opcode or operand, > n = truncated */
static size_t vf_size(const uint8_t* p, size_t n) {
  uint8_t op = p[0]; int z;
  switch (op) {
    case OP_NOOP: case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE: case OP_EXIT_STRUCT: case OP_ARR_END: case OP_MARK_OPTIONAL: case OP_ENTER_BIT_MODE: case OP_EXIT_BIT_MODE:
    case OP_POP: case OP_SWAP: case OP_DUP: case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE: case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT:
    case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG: case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
    case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_LOG: case OP_ABS: case OP_POW: case OP_ITOF: case OP_FTOI:
    case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F: case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR: return 1;
    case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL: return 2;
    case OP_EMIT: return n < 2 ? 2 : vf_tsz(p[1]) ? 2 : 0;
    case OP_ENTER_STRUCT: case OP_META_NAME: case OP_LOAD_CTX: case OP_STORE_CTX: case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64: case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
    case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_BOOL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: case OP_ARR_EOF: return 3;
    case OP_IO_BIT_U: case OP_IO_BIT_I: return n < 4 ? 4 : p[3] >= 1 && p[3] <= 64 ? 4 : 0;
    case OP_STR_NULL: case OP_ARR_DYNAMIC: case OP_JUMP: case OP_JUMP_IF_NOT: return 5;
    case OP_ARR_FIXED: case OP_RAW_BYTES: return 7;
    case OP_CONST_CHECK: if (n < 4) return 4; z = p[3] == OP_IO_BOOL || p[3] >= OP_IO_F32 ? 0 : vf_tsz(p[3]); return z ? 4 + z : 0;
    case OP_CONST_WRITE: if (n < 2) return 2; z = p[1] > OP_IO_U64 ? 0 : vf_tsz(p[1]); return z ? 2 + z : 0;
    case OP_RANGE_CHECK: if (n < 2) return 2; z = p[1] == OP_IO_BOOL ? 0 : vf_tsz(p[1]); return z ? 2 + 2 * z : 0;
    case OP_ENUM_CHECK: if (n < 4) return 4; z = p[1] >= OP_IO_F32 ? 0 : vf_tsz(p[1]); return z ? 4 + z * (size_t)vf_u(p + 2, 2) : 0;
    case OP_TRANS_POLY: return n < 2 ? 2 : 2 + 8 * (size_t)p[1];
    case OP_TRANS_SPLINE: return n < 2 ? 2 : 2 + 16 * (size_t)p[1];
    case OP_SCALE_LIN: return 17; case OP_CRC_16: return 8; case OP_CRC_32: return 14;
    case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: case OP_PUSH_IMM: return 9;
    default: return 0;
  }
}
static cnd_error_t vf_cb(cnd_vm_ctx* c, uint16_t key, uint8_t type, void* p) {
  csxh_calls++;
  if (type == OP_STR_NULL || type == OP_STR_PRE_U8 || type == OP_STR_PRE_U16 || type == OP_STR_PRE_U32) { if (c->mode == CND_MODE_ENCODE) *(const char**)p = "a"; }
  else if (type == OP_ARR_PRE_U8) { uint8_t v = 1; memcpy(p, &v, 1); } else if (type == OP_ARR_PRE_U16) { uint16_t v = 1; memcpy(p, &v, 2); }
  else if (type == OP_ARR_PRE_U32 || type == OP_ARR_FIXED || type == OP_ARR_DYNAMIC) { uint32_t v = 1; memcpy(p, &v, 4); }
  else if (type == OP_CTX_QUERY || type == OP_LOAD_CTX) { uint64_t v; csx_bytes(&v, 8, "discriminator"); if (c->user_ptr) v = 1; memcpy(p, &v, 8); }
  else if (type == OP_RAW_BYTES) return CND_ERR_CALLBACK;
  else if (type == OP_IO_BOOL || type == OP_IO_BIT_BOOL) { if (c->mode == CND_MODE_ENCODE) *(uint8_t*)p = 1; }
  return csxh_calls > 12 ? CND_ERR_CALLBACK : CND_ERR_OK;
}
/* runs an accepted program with room for every field: only validation, host, stack and arithmetic errors may happen */
static int csxh_msg;   /* the message itself may be too short for what the program declares */
static void vf_exec(int mode, int arr) {
  static uint8_t csxh_data[64]; memset(csxh_data, 1, 64);
  static cnd_vm_ctx csxh_ctx; memset(&csxh_ctx, 0, sizeof csxh_ctx);
  csxh_calls = 0;
  cnd_init(&csxh_ctx, mode ? CND_MODE_DECODE : CND_MODE_ENCODE, &csxh_prog, csxh_data, 64, vf_cb, arr ? (void*)1 : 0);
  int st = cnd_execute(&csxh_ctx);
  csx_assert(st != CND_ERR_INVALID_OP, "a verified program fails with an invalid opcode");
  csx_assert(st != CND_ERR_OOB || csxh_msg, "a verified program leaves its byte-code");
  csx_reach("ran"); csx_note("st", st);
}
static int vf_load(const uint8_t* t, size_t n) {
  csxh_p = malloc(n ? n : 1); memcpy(csxh_p, t, n); csxh_pn = n; cnd_program_load(&csxh_prog, csxh_p, n); csx_ro(csxh_p, n, 1);
  int r = cnd_verify_program(&csxh_prog) == CND_ERR_OK;
  csx_reach(r ? "accepted" : "rejected"); csx_note("accepted", r); return r;
}
/* one instruction of any opcode, complete or truncated, alone or between others; behind it 0-2 NOOPs */
static void vf_single(int lo, int hi, int nop, int pre) {
  static uint8_t t[64]; size_t at = pre ? 4 : 0, n;
  if (pre) { t[0] = OP_IO_U8; csx_bytes(t + 1, 2, "key"); t[3] = OP_NOOP; }
  t[at] = (uint8_t)csx_concrete(csx_pick(lo, hi, "opcode")); csx_bytes(t + at + 1, nop, "operands");
  size_t cut = csx_pick(0, nop, "operand bytes");
  n = at + 1 + cut;
  uint8_t op = t[at];
  size_t z = vf_size(t + at, n - at);
  if (z && z <= n - at) { csx_assume(z == n - at); if (pre) { t[n++] = OP_NOOP; } }   /* whatever follows the instruction is another instance */
  int ok = vf_load(t, n);
  csx_assert(z != 0 || !ok, "an undefined opcode or operand is accepted");
  csx_assert(z <= cut + 1 || !ok, "a truncated instruction is accepted");
  if (op == OP_JUMP || op == OP_JUMP_IF_NOT) { if (z && z <= cut + 1) { int64_t to = (int64_t)(at + 5) + (int32_t)vf_u(t + at + 1, 4); csx_assert((to >= 0 && (uint64_t)to <= n) || !ok, "a jump outside the program is accepted"); csx_assume(to >= (int64_t)(at + 5)); } }
  if (ok) { csx_assert(z <= cut + 1, "reference"); csxh_msg = (op >= OP_STR_NULL && op <= OP_ARR_DYNAMIC) || op == OP_RANGE_CHECK || op == OP_ENUM_CHECK; if (op != OP_RAW_BYTES && op != OP_STR_NULL) vf_exec((int)csx_param(4), op >= OP_ARR_FIXED); }
}
/* a concrete program with one symbolic offset; targets must be instruction starts at the same loop depth */
typedef struct { int start, depth; } vf_at;
static int csxh_ntab, csxh_tab[4];
static void vf_jump(const uint8_t* p, size_t n, size_t off, size_t base, const vf_at* a, int na, int depth, int run) {
  static uint8_t t[160]; memcpy(t, p, n); csx_bytes(t + off, 4, "offset");
  int64_t to = (int64_t)base + (int32_t)vf_u(t + off, 4); int good = 0, either = 0;
  /* every target inside the program is a case of its own; all others stay one symbolic case */
  if (to >= 0 && to <= (int64_t)n) { to = (int64_t)csx_concrete((uint64_t)to); int32_t o = (int32_t)(to - (int64_t)base); for (int i = 0; i < 4; i++) t[off + i] = (uint8_t)((uint32_t)o >> (8 * i)); }
  for (int i = 0; i < na; i++) if (to == a[i].start && depth == a[i].depth) good = 1;
  for (int i = 0; i < csxh_ntab; i++) if (to == csxh_tab[i]) either = 1;   /* a jump table that is itself straight-line code may be executed */
  int ok = vf_load(t, n);
  csx_assert(good || either || !ok, "a jump into an instruction, another loop or outside the program is accepted");
  csx_assert(ok || !good, "a program whose jumps all lead to instructions is rejected");
  if (ok && (to >= (int64_t)base || !run)) vf_exec((int)csx_param(1), 0);
}
