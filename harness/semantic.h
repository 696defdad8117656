/* Schema templates with symbolic names and numbers: rejected exactly when the stated condition holds. */
#include "source.h"
#include <stdio.h>
static char csxh_nm[6][8]; static long csxh_num[8]; static int csxh_have[6], csxh_hnum[8];
static int se_alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int se_ident(char c) { return se_alpha(c) || (c >= '0' && c <= '9'); }
/* holes: \1..\6 a name q?? whose last character may be missing; \21..\30 (octal) a number of up to 2 digits */
static void se_build(const char* t, int conc) {
  char* p = csxh_src;
  for (; *t; t++) {
    unsigned c = (unsigned char)*t;
    if (c >= 1 && c <= 6) {
      char* n = csxh_nm[c - 1];
      if (!csxh_have[c - 1]) { csxh_have[c - 1] = 1; n[0] = 'q'; csx_bytes(n + 1, 2, "name"); csx_assume(se_ident(n[1])); csx_assume(se_ident(n[2]) || n[2] == ' '); n[3] = 0; }
      memcpy(p, n, 3); p += 3;
    } else if (c >= 17 && c <= 24) {
      static char d[8][2]; int i = (int)c - 17;
      if (!csxh_hnum[i]) { csxh_hnum[i] = 1; csx_bytes(d[i], 2, "number"); for (int j = 0; j < 2; j++) { csx_assume(d[i][j] >= '0' && d[i][j] <= '9'); if (conc) d[i][j] = (char)csx_concrete((uint8_t)d[i][j]); } csxh_num[i] = (d[i][0] - '0') * 10 + (d[i][1] - '0'); }
      *p++ = d[i][0]; *p++ = d[i][1];
    } else *p++ = *t;
  }
  *p = 0;
}
#define EQ(i, j) (csxh_nm[i][1] == csxh_nm[j][1] && csxh_nm[i][2] == csxh_nm[j][2])
#define V(i) (csxh_num[i])
static void se_check(int wrong) {
  csx_capture(1); int rc = so_compile(csxh_src, "t.cnd", 0); csx_note("rc", rc != 0); csx_reach(wrong ? "wrong" : "right");
  if (wrong) csx_assert(rc != 0, "an invalid schema is accepted"); else csx_assert(rc == 0, "a valid schema is rejected");
  if (rc) csx_assert(csx_out_count(1) > 0 && csxh_in == 0, "a rejected schema leaves no diagnostic or an image");
}
