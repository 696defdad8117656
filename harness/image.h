/* Loading images: the loader and the key lookups against a direct reading of the image format. */
#include "csx.h"
#include "concordia.h"
#include <string.h>
#include <stdlib.h>
static cnd_program csxh_prog;
static uint8_t* csxh_i; static size_t csxh_n;
static size_t im_u(size_t at, int n) { size_t v = 0; for (int i = 0; i < n; i++) v |= (size_t)csxh_i[at + i] << (8 * i); return v; }
static size_t im_so, im_bo, im_cnt;
static size_t im_pos[300];   /* starts of the strings */
/* 1 = a well-formed image */
static int im_ref(void) {
  if (csxh_n < 16) return 0;
  if (csxh_i[0] != 'C' || csxh_i[1] != 'N' || csxh_i[2] != 'D' || csxh_i[3] != 'I' || csxh_i[4] != 'L' || csxh_i[5] != 1) return 0;
  im_cnt = im_u(6, 2); im_so = im_u(8, 4); im_bo = im_u(12, 4);
  if (im_so > csxh_n || im_bo > csxh_n) return 0;
  im_so = csx_concrete(im_so); im_bo = csx_concrete(im_bo);
  size_t at = im_so;
  if (im_cnt > csxh_n - im_so) return 0;
  im_cnt = csx_concrete(im_cnt);
  for (size_t k = 0; k < im_cnt; k++) { if (k < 300) im_pos[k] = at; while (at < csxh_n && csxh_i[at]) at++; if (at == csxh_n) return 0; at++; }
  return 1;
}
static int im_eq(size_t at, const char* s) { size_t i = 0; for (;; i++) { if ((char)csxh_i[at + i] != s[i]) return 0; if (!s[i]) return 1; } }
static unsigned im_find(const char* s) { for (size_t k = 0; k < im_cnt; k++) if (im_eq(im_pos[k], s)) return (unsigned)k; return 0xFFFF; }
static void im_name(uint16_t k) {
  const char* s = cnd_get_key_name(&csxh_prog, k);
  if (k >= im_cnt) { csx_assert(s == 0, "an unknown key id has a name"); csx_reach("no name"); return; }
  csx_assert(s == (const char*)csxh_i + im_pos[k], "a key id has the wrong name"); csx_reach("name");
  unsigned id = cnd_get_key_id(&csxh_prog, s), f = im_find(s);
  csx_assert(id == f, "the id of a key's name is not the key"); csx_note("id", id);
}
static void im_id(const char* s) {
  unsigned id = cnd_get_key_id(&csxh_prog, s), f = im_find(s);
  csx_assert(id == f, f == 0xFFFF ? "an unknown name has an id" : "a name has the wrong id");
  csx_reach(f == 0xFFFF ? "no id" : "id");
}
static int im_load(int exact) {
  csx_ro(csxh_i, csxh_n ? csxh_n : 1, 1);
  memset(&csxh_prog, 0, sizeof csxh_prog);
  int good = im_ref();
  int ok = cnd_program_load_il(&csxh_prog, csxh_i, csxh_n) == CND_ERR_OK;
  csx_assert(!ok || good, "a malformed image is accepted");
  csx_assert(ok || !good, "a well-formed image is rejected");
  csx_reach(ok ? "accepted" : "rejected"); csx_note("ok", ok);
  if (ok) { csx_assert(csxh_prog.bytecode == csxh_i + im_bo && csxh_prog.bytecode_len == csxh_n - im_bo, "the program is not the image's byte-code");
  }
  return ok;
}
