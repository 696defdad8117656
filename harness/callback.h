/* A run whose host fails at call k is compared with the same run without the failure: same calls before, none after, nothing written after. */
#include "codec.h"
static uint8_t* cb_snap[MAXEV + 2]; static uint8_t csxh_snap[MAXEV + 2][32];
static tr_t csxh_ref; static int csxh_refcalls, csxh_isref = 1;
static cnd_error_t cb_cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t type, void* p) {
  csx_assert(ctx->data_buffer == csxh_data && ctx->data_len == csxh_len, "the context's buffer changed during the run");
  if (csxh_isref && csxh_calls < MAXEV) memcpy(csxh_snap[csxh_calls], csxh_data, csxh_len);
  if (type == OP_RAW_BYTES) {   /* an offer of bulk transfer which the host may decline */
    int f = csxh_failat, c = csxh_calls; csxh_failat = -1; cnd_error_t e = cd_cb(ctx, key, type, p); csxh_failat = f; csxh_calls = c;
    csx_assert(csxh_isref || f < 0 || c <= f, "the host is called again after it failed"); return e; }
  return cd_cb(ctx, key, type, p);
}
static void cb_run(int mode, size_t n, int raw) {
  csx_assert(n <= 32, "harness: message too long");
  uint8_t* in = malloc(n ? n : 1); csx_bytes(in, n, mode == DEC ? "message" : "buffer");
  csxh_data = malloc(n ? n : 1); csxh_len = n; csxh_raw = raw;
  memcpy(csxh_data, in, n); csxh_failat = -1;
  cnd_vm_ctx c; memset(&c, 0, sizeof c); cnd_init(&c, mode == ENC ? CND_MODE_ENCODE : CND_MODE_DECODE, &csxh_prog, csxh_data, n, cb_cb, 0);
  int st = cnd_execute(&c);
  csxh_ref = csxh_vt; csxh_refcalls = csxh_calls;
  csx_assert(st != CND_ERR_CALLBACK, "a callback error without a failing callback");
  if (st == CND_ERR_OK) csx_reach("complete");
  if (!csxh_calls) return;
  int k = (int)csx_concrete(csx_pick(0, (uint64_t)(csxh_calls - 1), "failing call"));
  memcpy(csxh_data, in, n); csxh_isref = 0; csxh_calls = 0; csxh_after = 0; csxh_failat = k; csxh_vt.n = 0; csxh_hiv = csxh_his = csxh_hic = 0; csxh_lastcount = 0;
  cnd_vm_ctx d; memset(&d, 0, sizeof d); cnd_init(&d, mode == ENC ? CND_MODE_ENCODE : CND_MODE_DECODE, &csxh_prog, csxh_data, n, cb_cb, 0);
  int st2 = cnd_execute(&d);
  csx_assert(st2 != CND_ERR_OK, "a failed callback is reported as success");
  csx_assert(st2 == CND_ERR_CALLBACK, "a failed callback is reported as another error");
  csx_assert(csxh_calls == k + 1 && !csxh_after, "the host is called again after it failed");
  csx_assert(csxh_vt.n <= csxh_ref.n, "wrong number of host callbacks");
  for (int i = 0; i < csxh_vt.n; i++) csx_assert(csxh_vt.e[i].t == csxh_ref.e[i].t && csxh_vt.e[i].key == csxh_ref.e[i].key && csxh_vt.e[i].v == csxh_ref.e[i].v, "equal runs call the host differently");
  for (size_t i = 0; i < n; i++) csx_assert(csxh_data[i] == csxh_snap[k][i], mode == DEC ? "decoding modified the message" : "a field was written after the host failed");
  csx_reach("stopped");
}
