/* Import graphs: files n/a n/b n/c imported by n/m through symbolic paths. */
#include "layout.h"
static char csxh_f[5][600];
static const char* const IM_NAME[] = {"n/a", "n/b", "n/c", "n/m"};
static uint8_t csxh_t[4][2]; static int csxh_seen[4], csxh_missing, csxh_order[4], csxh_no;
/* what an import of file i makes available, in order */
static void im_walk(int i) {
  if (csxh_missing) return;
  for (int s = 0; s < 2; s++) {
    uint8_t t = csxh_t[i][s]; int j = t == 'a' ? 0 : t == 'b' ? 1 : t == 'c' ? 2 : t == 'm' ? 3 : -1;
    if (j < 0) { csxh_missing = 1; return; }
    if (!csxh_seen[j]) { csxh_seen[j] = 1; im_walk(j); if (csxh_missing) return; }
  }
}
/* where the path `p`, relative to directory n, leads: canonical name, or 0 if it does not exist; the directories are n, n/d and n/d/e */
static int im_isdir(const char* o, size_t n) { return n == 0 || (n == 1 && o[0] == 'n') || (n == 3 && !memcmp(o, "n/d", 3)) || (n == 5 && !memcmp(o, "n/d/e", 5)); }
static int im_resolve(const char* p, size_t n, char* o) {
  size_t l = 1; o[0] = 'n'; size_t i = 0; int any = 0;
  while (i < n) {
    size_t j = i; while (j < n && p[j] != '/') j++;
    size_t k = j - i;
    if (k > 0) {
      if (!im_isdir(o, l)) return 0;
      any = 1;
      if (k == 1 && p[i] == '.') {}
      else if (k == 2 && p[i] == '.' && p[i + 1] == '.') { if (l == 0) return 0; while (l && o[l - 1] != '/') l--; if (l) l--; }
      else { if (l) o[l++] = '/'; memcpy(o + l, p + i, k); l += k; }
    }
    if (j < n && !im_isdir(o, l)) return 0;  /* something follows: a directory */
    i = j + 1;
  }
  o[l] = 0; return any;
}
