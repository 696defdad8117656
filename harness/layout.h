/* Layout between tokens: the image, and the line of the first diagnostic. */
#include "source.h"
#include <stdio.h>
#include <stdlib.h>
static uint8_t csxh_ref[4000]; static size_t csxh_refn;
static char csxh_lytx[3000]; static char csxh_ins[64]; static int csxh_nl;
/* a layout string of the given kind with n arbitrary bytes */
static void ly_make(int kind, int n) {
  char* w = csxh_ins; int o = 0, e = 0;
  if (kind == 1) { memcpy(w, " //", 3); o = 3; } else if (kind == 2) { memcpy(w, " /*", 3); o = 3; } else if (kind == 3) { memcpy(w, "/*", 2); o = 2; }
  csx_bytes(w + o, n, "layout"); csxh_nl = 0;
  for (int i = 0; i < n; i++) { char c = w[o + i];
    if (kind == 0) { csx_assume(c == ' ' || c == '\t' || c == '\n' || c == '\r'); }
    else csx_assume(c != 0);
    if (kind == 1) { csx_assume(c != '\n'); csx_assume(i || c != '/'); }
    if (kind >= 2 && i) csx_assume(!(w[o + i - 1] == '*' && c == '/'));
    if (c == '\n') csxh_nl++;
  }
  e = o + n;
  if (kind == 1) { w[e++] = '\n'; csxh_nl++; } if (kind >= 2) { w[e++] = '*'; w[e++] = '/'; }
  w[e] = 0;
}
/* number after `key` in the text printed so far; -1 if there is none */
static int ly_line(size_t from, const char* key) {
  size_t n = csx_file_get("stdout.txt", csxh_lytx, sizeof csxh_lytx - 1); csx_assert(n < sizeof csxh_lytx, "harness: diagnostics too long"); csxh_lytx[n] = 0;
  char* p = strstr(csxh_lytx + from, key); if (!p) return -1;
  p += strlen(key); int v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); return v;
}
static size_t ly_out(void) { size_t n = csx_file_get("stdout.txt", csxh_lytx, sizeof csxh_lytx - 1); return n == (size_t)-1 ? 0 : n; }
static void ly_same(const char* base, const uint16_t* at, size_t k, int json) {
  char* p = csxh_src; size_t n = strlen(base);
  if (k == (size_t)-1) { for (size_t i = 0, j = 0; i < n; i++) { if (i == at[j]) { strcpy(p, csxh_ins); p += strlen(p); j++; } *p++ = base[i]; } *p = 0; }
  else { memcpy(p, base, at[k]); strcpy(p + at[k], csxh_ins); strcat(p, base + at[k]); }
  int rc = so_compile(csxh_src, "t.cnd", json); csx_reach("compiled");
  csx_assert(rc == 0, "a schema is rejected because of its layout");
  csx_assert(csxh_in == csxh_refn && !memcmp(csxh_img, csxh_ref, csxh_refn), "layout changes what a schema means");
}
static void ly_base(const char* t) { int rc = so_compile(t, "t.cnd", 0); csx_assert(rc == 0 && csxh_in > 0, "a valid schema is rejected"); memcpy(csxh_ref, csxh_img, csxh_refn = csxh_in); csx_file("o.il", "", 0); }
static void ly_diag(const char* base, size_t at, int before, int line, int json) {
  csx_capture(1); memcpy(csxh_src, base, at); strcpy(csxh_src + at, csxh_ins); strcat(csxh_src, base + at);
  int rc = so_compile(csxh_src, "t.cnd", json); csx_reach("rejected"); csx_assert(rc != 0, "an invalid schema is accepted");
  int l = ly_line(0, json ? "\"line\": " : "t.cnd:"); csx_note("line", l);
  csx_assert(l == line + (before ? csxh_nl : 0), "the diagnostic does not name the line of the error");
}
