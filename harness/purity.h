/* Purity: a run is compared with an equal run during which, at every host call, another context runs to its end on the same program.
   Program, message and globals are read-only. */
#include "codec.h"
static uint8_t csxh_other[32]; static int csxh_oc, csxh_nest, csxh_omode;
static cnd_error_t pu_other(cnd_vm_ctx* c, uint16_t key, uint8_t type, void* p) {
  csxh_oc++;
  int enc = c->mode == CND_MODE_ENCODE;
  switch (type) {
    case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: if (enc) *(const char**)p = "q"; break;
    case OP_ARR_PRE_U8: if (enc) *(uint8_t*)p = 1; break; case OP_ARR_PRE_U16: if (enc) *(uint16_t*)p = 1; break; case OP_ARR_PRE_U32: if (enc) *(uint32_t*)p = 1; break;
    case OP_CTX_QUERY: case OP_LOAD_CTX: *(uint64_t*)p = 1; break;
    case OP_RAW_BYTES: return CND_ERR_CALLBACK;
    default: if (enc && p && cd_size(type) && type < OP_STR_NULL) memset(p, 1, cd_size(type));
  }
  return csxh_oc > 20 ? CND_ERR_CALLBACK : CND_ERR_OK;
}
static cnd_error_t pu_cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t type, void* p) {
  if (csxh_nest) {
    static cnd_vm_ctx csxh_b; cnd_vm_ctx o; memset(&o, 0xA5, sizeof o); memset(csxh_other, 1, 32); csxh_oc = 0;
    cnd_init(&o, csxh_omode ? CND_MODE_DECODE : CND_MODE_ENCODE, &csxh_prog, csxh_other, 32, pu_other, &csxh_b);
    cnd_execute(&o);
    csx_assert(csxh_oc > 0 || o.ip > 0 || 1, "other");
  }
  return cd_cb(ctx, key, type, p);
}
static void pu_run(int mode, size_t n, int raw, int omode) {
  csx_assert(n <= 32, "harness: message too long");
  uint8_t* in = malloc(n ? n : 1); csx_bytes(in, n, mode == DEC ? "message" : "buffer");
  uint8_t* da = malloc(n ? n : 1), *db = malloc(n ? n : 1); memcpy(da, in, n); memcpy(db, in, n);
  csxh_len = n; csxh_raw = raw; csxh_failat = -1; csxh_omode = omode;
  if (mode == DEC) { csx_ro(da, n, 1); csx_ro(db, n, 1); }
  csx_ro(&csxh_prog, sizeof csxh_prog, 1); if (csxh_imgn) csx_ro(csxh_img, csxh_imgn, 1);
  csx_freeze_globals();
  cnd_vm_ctx c; memset(&c, 0, sizeof c); cnd_init(&c, mode == ENC ? CND_MODE_ENCODE : CND_MODE_DECODE, &csxh_prog, csxh_data = da, n, pu_cb, 0);
  int st = cnd_execute(&c);
  csxh_ot = csxh_vt;
  csxh_calls = 0; csxh_vt.n = 0; csxh_hiv = csxh_his = csxh_hic = 0; csxh_lastcount = 0; csxh_nest = 1;
  cnd_vm_ctx d; memset(&d, 0xFF, sizeof d); cnd_init(&d, mode == ENC ? CND_MODE_ENCODE : CND_MODE_DECODE, &csxh_prog, csxh_data = db, n, pu_cb, 0);
  int st2 = cnd_execute(&d);
  csx_assert(st == st2, "equal runs return different results");
  csx_assert(c.cursor == d.cursor && c.bit_offset == d.bit_offset, "equal runs end at different positions");
  csx_assert(csxh_vt.n == csxh_ot.n, "equal runs call the host differently");
  for (int i = 0; i < csxh_vt.n; i++) csx_assert(csxh_vt.e[i].t == csxh_ot.e[i].t && csxh_vt.e[i].key == csxh_ot.e[i].key && csxh_vt.e[i].v == csxh_ot.e[i].v, "equal runs call the host differently");
  for (size_t i = 0; i < n; i++) csx_assert(da[i] == db[i], "equal runs write different bytes");
  csx_reach(st == CND_ERR_OK ? "complete" : "error"); csx_note("st", st);
}
