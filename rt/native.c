/* Native side of csx.h: replays one model. argv: INPUT params... ; cwd is a scratch directory. */
#include "csx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
void harness(void);
static FILE* in; static int np; static char** pv;
static struct { const void* p; size_t n; unsigned char* c; } ro[64]; static int nro;
static void done(int rc) {
  for (int i = 0; i < nro; i++) if (ro[i].p && memcmp(ro[i].p, ro[i].c, ro[i].n)) { dprintf(3, "FAIL ro-write: read-only memory changed\n"); _exit(101); }
  dprintf(3, "END %d\n", rc); _exit(rc);
}
void csx_bytes(void* p, size_t n, const char* name) { (void)name; unsigned char* b = (unsigned char*)p; for (size_t i = 0; i < n; i++) { int c = in ? fgetc(in) : EOF; b[i] = c == EOF ? 0 : (unsigned char)c; } }
uint64_t csx_pick(uint64_t lo, uint64_t hi, const char* name) { uint64_t v; csx_bytes(&v, 8, name); if (v < lo || v > hi) v = lo; return v; }
void csx_assume(int c) { if (!c) { dprintf(3, "ASSUME\n"); _exit(102); } }
void csx_assert(int c, const char* m) { if (!c) { dprintf(3, "FAIL assert: %s\n", m); _exit(101); } }
void csx_reach(const char* l) { dprintf(3, "REACH %s\n", l); }
void csx_note(const char* k, uint64_t v) { dprintf(3, "NOTE %s %llu\n", k, (unsigned long long)v); }
void csx_ro(const void* p, size_t n, int on) {
  if (on) { if (nro < 64) { ro[nro].p = p; ro[nro].n = n; ro[nro].c = malloc(n + 1); memcpy(ro[nro].c, p, n); nro++; } }
  else for (int i = 0; i < nro; i++) if (ro[i].p == p) { if (memcmp(p, ro[i].c, ro[i].n)) { dprintf(3, "FAIL ro-write: read-only memory changed\n"); _exit(101); } ro[i].p = 0; }
}
void csx_protect_all(void) {}
void csx_freeze_globals(void) {}
int csx_symbolic(void) { return 0; }
uint64_t csx_param(int i) { return i < np ? strtoull(pv[i], 0, 0) : 0; }
uint64_t csx_concrete(uint64_t v) { return v; }
void csx_uninit(void* p, size_t n) {
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
  extern void __msan_poison(const volatile void*, size_t); __msan_poison(p, n);
#endif
#endif
  (void)p; (void)n;
}
void csx_stop(void) { done(0); }
void csx_dbg(const char* k, uint64_t v) { (void)k; (void)v; }
void csx_file(const char* name, const void* d, size_t n) { char t[512]; for (size_t i = 0; name[i] && i < 511; i++) { if (name[i] == '/' && i) { t[i] = 0; mkdir(t, 0777); } t[i] = name[i]; } FILE* f = fopen(name, "wb"); if (f) { fwrite(d, 1, n, f); fclose(f); } }
void csx_capture(int on) { (void)on; }
size_t csx_out_count(int fd) { fflush(0); off_t o = lseek(fd, 0, SEEK_CUR); return o > 0 ? (size_t)o : 0; }
size_t csx_file_get(const char* name, void* out, size_t cap) { fflush(0); FILE* f = fopen(name, "rb"); if (!f) return (size_t)-1; size_t n = fread(out, 1, cap, f); fclose(f); return n; }
int main(int argc, char** argv) {
  in = argc > 1 ? fopen(argv[1], "rb") : 0; np = argc - 2; pv = argv + 2;
  harness(); done(0);
}
