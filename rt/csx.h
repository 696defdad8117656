/* Harness API. Under csx these are engine primitives; natively they read the replay file. */
#ifndef CSX_H
#define CSX_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void csx_bytes(void* p, size_t n, const char* name);          /* n fresh symbolic bytes */
uint64_t csx_pick(uint64_t lo, uint64_t hi, const char* name); /* concrete choice, all values explored */
void csx_assume(int c);
void csx_assert(int c, const char* msg);
void csx_reach(const char* label);                             /* vacuity witness */
void csx_note(const char* key, uint64_t v);                    /* observation compared engine vs native */
void csx_ro(const void* p, size_t n, int on);                  /* any write to the object is a violation */
void csx_protect_all(void);                                    /* every existing object becomes read-only */
void csx_freeze_globals(void);
int csx_symbolic(void);
uint64_t csx_param(int i);
uint64_t csx_concrete(uint64_t v);
void csx_uninit(void* p, size_t n);
void csx_stop(void);
void csx_dbg(const char* k, uint64_t v);
static inline uint64_t csx_u64(const char* n) { uint64_t v; csx_bytes(&v, 8, n); return v; }
static inline uint32_t csx_u32(const char* n) { uint32_t v; csx_bytes(&v, 4, n); return v; }
static inline uint16_t csx_u16(const char* n) { uint16_t v; csx_bytes(&v, 2, n); return v; }
static inline uint8_t csx_u8(const char* n) { uint8_t v; csx_bytes(&v, 1, n); return v; }
/* in-memory file system of the symbolic libc; natively real files below the current scratch directory */
void csx_file(const char* name, const void* data, size_t n);
size_t csx_file_get(const char* name, void* out, size_t cap);  /* (size_t)-1 if it does not exist */
void csx_capture(int on);                                       /* keep stdout/stderr text as files stdout.txt/stderr.txt */
size_t csx_out_count(int fd);                                   /* something printed on stdout (1) / stderr (2)? */
#ifdef __cplusplus
}
#endif
#endif
