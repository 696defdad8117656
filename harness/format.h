/* The formatter: tokens and comments survive, formatting is stable. */
#include "csx.h"
#include "concordia.h"
#include "compiler.h"
#include <string.h>
#include <stdlib.h>
static char csxh_src[1200];
/* one token at s[i]: returns its end; blank-separated lexemes, comments and strings as units, every other character alone */
static size_t fm_tok(const char* s, size_t i) {
  char c = s[i];
  if (c == '/' && s[i + 1] == '/') { while (s[i] && s[i] != '\n') i++; return i; }
  if (c == '/' && s[i + 1] == '*') { i += 2; while (s[i] && !(s[i] == '*' && s[i + 1] == '/')) i++; return s[i] ? i + 2 : i; }
  if (c == '"') { i++; while (s[i] && s[i] != '"') i++; return s[i] ? i + 1 : i; }
  if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9')) { while ((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z') || s[i] == '_' || (s[i] >= '0' && s[i] <= '9')) i++; return i; }
  return i + 1;
}
static size_t fm_skip(const char* s, size_t i) { while (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n') i++; return i; }
static int fm_alone(char c) { return c == '{' || c == '}' || c == '[' || c == ']' || c == '(' || c == ')' || c == ';' || c == ':' || c == ',' || c == '@' || c == '"'; }
static void fm_check(const char* a) {
  char* f = cnd_format_source(a);
  csx_assert(f != 0, "no formatted text");
  size_t i = fm_skip(a, 0), j = fm_skip(f, 0), pi = 0, pj = 0; char last = '{';
  while (a[i]) {
    csx_assert(f[j] != 0, "formatting lost a token");
    size_t e = fm_tok(a, i), g = fm_tok(f, j);
    if (!a[e]) { while (g > j && f[g - 1] == '\n' && g - j > e - i) g--; }   /* an unfinished comment or string extends to the end */
    csx_assert(e - i == g - j, "formatting changed a token");
    for (size_t k = 0; k < e - i; k++) csx_assert(a[i + k] == f[j + k], "formatting changed a token");
    if (pi && !fm_alone(last) && !fm_alone(a[i]) && !(a[i] == '/' && (a[i + 1] == '/' || a[i + 1] == '*'))) csx_assert((i == pi) == (j == pj), "formatting joined or split tokens");
    if (a[i] == '/' && (a[i + 1] == '/' || a[i + 1] == '*') && e - i > 1) last = '{'; else last = a[e - 1];
    int line = a[i] == '/' && a[i + 1] == '/';
    pi = e; pj = g; i = fm_skip(a, e); j = fm_skip(f, g);
    if (line && a[i]) { int nl = 0; for (size_t k = g; k < j; k++) if (f[k] == '\n') nl = 1; csx_assert(nl, "a line comment swallows the following token"); }
  }
  csx_assert(f[j] == 0, "formatting added a token");
  char* h = cnd_format_source(f);
  csx_assert(strlen(h) == strlen(f) && !strcmp(h, f), "formatting formatted text changes it");
  csx_reach("formatted"); csx_note("length", strlen(f));
  free(f); free(h);
}
