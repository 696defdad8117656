/* C library for the symbolic build: plain C so that the engine executes it like any other code. */
#include "csx.h"
#include <stdarg.h>
#include <stdlib.h>
#include <errno.h>
double csx_strtod(const char* s, size_t* used);
int csx_fmtd(char* b, size_t n, const char* fmt, double v);
void* malloc(size_t); void* realloc(void*, size_t); void free(void*); void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t);

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); if (!l) return (char*)h; for (; *h; h++) if (!strncmp(h, n, l)) return (char*)h; return 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = malloc(n); if (r) memcpy(r, s, n); return r; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* r = malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* a, int c, size_t n) { const unsigned char* x = a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return 0; }
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isalpha(int c) { return ((unsigned)c | 32u) - 'a' < 26u; }
int isalnum(int c) { return (((unsigned)c | 32u) - 'a' < 26u) | ((unsigned)c - '0' < 10u); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9u < 5u); }
int isxdigit(int c) { return ((unsigned)c - '0' < 10u) | (((unsigned)c | 32u) - 'a' < 6u); }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int isprint(int c) { return (unsigned)c - 32u < 95u; }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != ' '); }
int abs(int x) { return x < 0 ? -x : x; }
static int csxh_errno; int* __errno_location(void) { return &csxh_errno; }
static unsigned long long ull(const char* s, char** e, int base, int* neg, int* ovf) {
  const char* p = s; *neg = 0; *ovf = 0; while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0;
  for (;; p++) { int c = (unsigned char)*p, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any = 1;
    if (v > (0xffffffffffffffffull - (unsigned)d) / (unsigned)base) { *ovf = 1; } v = v * (unsigned)base + (unsigned)d; }
  if (e) *e = (char*)(any ? p : s);
  return v;
}
unsigned long strtoul(const char* s, char** e, int b) { int n, o; unsigned long long v = ull(s, e, b, &n, &o); if (o) { csxh_errno = ERANGE; return ~0ul; } return n ? 0 - v : v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long strtol(const char* s, char** e, int b) { int n, o; unsigned long long v = ull(s, e, b, &n, &o); if (o || v > 0x7fffffffffffffffull + (unsigned)n) { csxh_errno = ERANGE; return n ? (long)0x8000000000000000ull : 0x7fffffffffffffffl; } return n ? (long)(0 - v) : (long)v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
double strtod(const char* s, char** e) { size_t u = 0; double d = csx_strtod(s, &u); if (e) *e = (char*)s + u; return d; }
double atof(const char* s) { return strtod(s, 0); }
char* getenv(const char* n) { (void)n; return 0; }
long time(long* t) { if (t) *t = 0; return 0; }
void perror(const char* s) { (void)s; }
void qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  unsigned char* a = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * w, a + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { unsigned char t = a[(j - 1) * w + k]; a[(j - 1) * w + k] = a[j * w + k]; a[j * w + k] = t; }
}
/* ---- formatted output ---- */
static size_t put(char* b, size_t n, size_t at, char c) { if (b && at + 1 < n) b[at] = c; return at + 1; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  size_t at = 0;
  for (; *f; f++) {
    if (*f != '%') { at = put(b, n, at, *f); continue; }
    const char* st = f; f++; int left = 0, zero = 0, plus = 0, alt = 0; long prec = -1, width = 0; int lng = 0, half = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') {} else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit(*f)) width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') half++; else break; }
    (void)alt;
    switch (*f) {
      case '%': at = put(b, n, at, '%'); break;
      case 'c': { char c = (char)va_arg(ap, int); at = put(b, n, at, c); break; }
      case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; size_t l = 0; while ((prec < 0 || l < (size_t)prec) && s[l]) l++; long pad = width > (long)l ? width - (long)l : 0; if (!left) while (pad-- > 0) at = put(b, n, at, ' '); for (size_t i = 0; i < l; i++) at = put(b, n, at, s[i]); if (left) while (pad-- > 0) at = put(b, n, at, ' '); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': case 'o': {
        unsigned long long v; int neg = 0; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
        if (*f == 'd' || *f == 'i') { long long x = lng ? va_arg(ap, long long) : va_arg(ap, int); if (half == 1) x = (short)x; if (half > 1) x = (signed char)x; neg = x < 0; v = neg ? 0 - (unsigned long long)x : (unsigned long long)x; }
        else if (*f == 'p') v = (unsigned long long)va_arg(ap, void*); else { v = lng ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); if (half == 1) v = (unsigned short)v; if (half > 1) v = (unsigned char)v; }
        char t[32]; int k = 0; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; do { t[k++] = dg[v % base]; v /= base; } while (v);
        long digits = k > prec ? k : prec; long tot = digits + (neg || plus); long pad = width > tot ? width - tot : 0;
        if (!left && !(zero && prec < 0)) while (pad-- > 0) at = put(b, n, at, ' ');
        if (neg) at = put(b, n, at, '-'); else if (plus) at = put(b, n, at, '+');
        if (!left && zero && prec < 0) while (pad-- > 0) at = put(b, n, at, '0');
        for (long i = k; i < digits; i++) at = put(b, n, at, '0'); while (k) at = put(b, n, at, t[--k]);
        if (left) while (pad-- > 0) at = put(b, n, at, ' '); break; }
      case 'f': case 'g': case 'e': case 'G': case 'F': { char fm[32], t[400]; size_t l = (size_t)(f - st) + 1; if (l > 31) l = 31; memcpy(fm, st, l); fm[l] = 0; double d = va_arg(ap, double); int k = csx_fmtd(t, sizeof t, fm, d); for (int i = 0; i < k; i++) at = put(b, n, at, t[i]); break; }
      case 0: f--; break;
      default: break;
    }
  }
  if (b && n) b[at < n ? at : n - 1] = 0;
  return (int)at;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
/* ---- files: in memory ---- */
typedef struct { char* name; unsigned char* d; size_t n, cap; } csxh_node;
typedef struct { csxh_node* nd; size_t pos; int wr, eof, err; } csxh_FILE;
static csxh_node csxh_dir = {"", 0, 0, 0};   /* an opened directory: cannot be read, its end is at LONG_MAX */
static csxh_node* csxh_fs[32]; static int csxh_nfs;
static csxh_FILE csxh_std[3]; void* stdin = &csxh_std[0]; void* stdout = &csxh_std[1]; void* stderr = &csxh_std[2];
static int csxh_open;
int csxh_open_files(void) { return csxh_open; }
static int isdir(const char* o, size_t n) { for (int i = 0; i < csxh_nfs; i++) if (!strncmp(csxh_fs[i]->name, o, n)) return 1; return 0; }
static const char* norm(const char* p, int use) {  /* "/w" is the working directory; "." and ".." segments are resolved like realpath does */
  static char b[2][512]; static int w; char* o = b[w ^= 1]; size_t n = 0; int bad = 0;
  if (p[0] == '/' && p[1] == 'w' && p[2] == '/') p += 3;
  while (*p && n < 500) {
    if (p[0] == '/') { p++; continue; }
    if (p[0] == '.' && (p[1] == '/' || !p[1])) { p++; continue; }
    if (p[0] == '.' && p[1] == '.' && (p[2] == '/' || !p[2])) { p += 2; if (n) { n--; while (n && o[n - 1] != '/') n--; } else bad = 1; continue; }
    while (*p && *p != '/' && n < 500) o[n++] = *p++;
    if (*p == '/') { o[n++] = '/'; if (!isdir(o, n)) bad = 1; }
  }
  o[n] = 0; return bad && use ? "" : o;
}
static int csxh_cap; static size_t csxh_outn[2];
void csx_capture(int on) { csxh_cap = on; }
size_t csx_out_count(int fd) { return csxh_outn[fd == 2]; }
static csxh_node* find(const char* p) { p = norm(p, 1); if (!*p) return 0; for (int i = 0; i < csxh_nfs; i++) if (!strcmp(csxh_fs[i]->name, p)) return csxh_fs[i]; return 0; }
static csxh_node* mk(const char* p) { csxh_node* x = find(p); if (x) { x->n = 0; return x; } p = norm(p, 0); if (csxh_nfs >= 32) return 0; x = malloc(sizeof *x); x->name = strdup(p); x->d = 0; x->n = x->cap = 0; csxh_fs[csxh_nfs++] = x; return x; }
static void grow(csxh_node* x, size_t n) { if (n > x->cap) { size_t c = x->cap ? x->cap * 2 : 64; if (c < n) c = n; x->d = realloc(x->d, c); x->cap = c; } }
void csx_file(const char* name, const void* d, size_t n) { csxh_node* x = mk(name); grow(x, n); if (n) memcpy(x->d, d, n); x->n = n; }
size_t csx_file_get(const char* name, void* out, size_t cap) { csxh_node* x = find(name); if (!x) return (size_t)-1; size_t n = x->n < cap ? x->n : cap; if (n) memcpy(out, x->d, n); return n; }
void* fopen(const char* p, const char* m) {
  if (!p) return 0; csxh_node* x = find(p); if (m[0] == 'r' && !x) { const char* o = norm(p, 1); size_t l = strlen(o); char t[512]; strcpy(t, o); if (l && l < 500) { if (t[l - 1] != '/') { t[l++] = '/'; t[l] = 0; } if (isdir(t, l)) x = &csxh_dir; } } if (m[0] == 'r' && !x) { csxh_errno = ENOENT; return 0; } if (m[0] == 'w') x = mk(p); if (m[0] == 'a' && !x) x = mk(p); if (!x) return 0;
  csxh_FILE* f = malloc(sizeof *f); f->nd = x; f->pos = m[0] == 'a' ? x->n : 0; f->wr = m[0] != 'r'; f->eof = f->err = 0; csxh_open++; return f; }
int fclose(void* f) { csxh_open--; free(f); return 0; }
size_t fread(void* b, size_t s, size_t n, void* fp) { csxh_FILE* f = fp; size_t want = s * n, av = f->nd->n > f->pos ? f->nd->n - f->pos : 0; if (f->nd == &csxh_dir) f->err = 1; if (want > av) { want = av; f->eof = 1; } if (want) memcpy(b, f->nd->d + f->pos, want); f->pos += want; return s ? want / s : 0; }
size_t fwrite(const void* b, size_t s, size_t n, void* fp) { csxh_FILE* f = fp; if (!f->nd) { if (f == &csxh_std[0]) return n; csxh_outn[f == &csxh_std[2]] += s * n; if (!csxh_cap) return n; const char* on = f == &csxh_std[2] ? "stderr.txt" : "stdout.txt"; csxh_node* x = find(on); csxh_FILE t; t.nd = x ? x : mk(on); t.pos = t.nd->n; grow(t.nd, t.pos + s * n); memcpy(t.nd->d + t.pos, b, s * n); t.nd->n += s * n; return n; } size_t k = s * n; grow(f->nd, f->pos + k); if (k) memcpy(f->nd->d + f->pos, b, k); f->pos += k; if (f->pos > f->nd->n) f->nd->n = f->pos; return n; }
int fseek(void* fp, long o, int w) { csxh_FILE* f = fp; long p = w == 0 ? o : w == 1 ? (long)f->pos + o : f->nd == &csxh_dir ? 0x7fffffffffffffffL : (long)f->nd->n + o; if (p < 0) return -1; f->pos = (size_t)p; f->eof = 0; return 0; }
long ftell(void* fp) { return (long)((csxh_FILE*)fp)->pos; }
void rewind(void* fp) { fseek(fp, 0, 0); }
int feof(void* fp) { return ((csxh_FILE*)fp)->eof; }
int ferror(void* fp) { return ((csxh_FILE*)fp)->err; }
int fflush(void* fp) { (void)fp; return 0; }
void setbuf(void* fp, char* b) { (void)fp; (void)b; }
int fgetc(void* fp) { unsigned char c; return fread(&c, 1, 1, fp) == 1 ? c : -1; }
char* fgets(char* b, int n, void* fp) { int i = 0; while (i + 1 < n) { int c = fgetc(fp); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
int fputc(int c, void* fp) { unsigned char b = (unsigned char)c; fwrite(&b, 1, 1, fp); return b; }
int fputs(const char* s, void* fp) { fwrite(s, 1, strlen(s), fp); return 1; }
int puts(const char* s) { fputs(s, stdout); fputc('\n', stdout); return 1; }
int putchar(int c) { return fputc(c, stdout); }
int vfprintf(void* fp, const char* f, va_list ap) {
  csxh_FILE* x = fp; if (!x->nd && !csxh_cap) { if (x != &csxh_std[0]) csxh_outn[x == &csxh_std[2]] += *f != 0; return 1; }
  char t[4096]; int k = vsnprintf(t, sizeof t, f, ap); fwrite(t, 1, (size_t)k < sizeof t ? (size_t)k : sizeof t - 1, fp); return k; }
int fprintf(void* fp, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fp, f, ap); va_end(ap); return r; }
int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int vprintf(const char* f, va_list ap) { return vfprintf(stdout, f, ap); }
char* realpath(const char* p, char* out) { csxh_node* x = find(p); if (!x) { csxh_errno = ENOENT; return 0; } char* r = out ? out : malloc(strlen(x->name) + 4); r[0] = '/'; r[1] = 'w'; r[2] = '/'; strcpy(r + 3, x->name); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { /* only "%2hhX" */
  va_list ap; va_start(ap, f); unsigned char* o = va_arg(ap, unsigned char*); va_end(ap); unsigned v = 0; int k = 0; while (isspace((unsigned char)*s)) s++; for (; k < 2 && isxdigit((unsigned char)s[k]); k++) { int c = (unsigned char)s[k]; v = v * 16 + (unsigned)(isdigit(c) ? c - '0' : (c | 32) - 'a' + 10); } if (!k) return *s ? 0 : -1; *o = (unsigned char)v; return 1; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); unsigned char* o = va_arg(ap, unsigned char*); va_end(ap); return __isoc99_sscanf(s, f, o); }
