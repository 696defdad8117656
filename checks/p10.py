from gen import *
TITLE = "Constants are always written exactly and every other value is rejected"
BOUNDS = {"quick": "boundary constants of every integer type (decimal, negative, hexadecimal) over all wire bytes; literals with symbolic digits for 8-bit types", "thorough": "quick plus symbolic literals of up to 5 digits for 16-bit types"}

# the literal's characters are symbolic; the schema is compiled and executed over symbolic wire bytes
SYM = r'''
#include "codec.h"
#define W %(w)d
static char src[128]; static uint8_t buf[W + 1], old[W + 1];
void harness(void) {
  int nd = (int)csx_pick(1, %(nd)d, "digits"), neg = (int)csx_pick(0, 1, "negative"), hex = (int)csx_pick(0, %(hx)d, "hex");
  char d[8]; csx_bytes(d, 8, "digits");
  int64_t v = 0;
  for (int i = 0; i < nd; i++) { if (hex) { csx_assume((d[i] >= '0' && d[i] <= '9') || (d[i] >= 'a' && d[i] <= 'f')); v = v * 16 + (d[i] <= '9' ? d[i] - '0' : d[i] - 'a' + 10); } else { csx_assume(d[i] >= '0' && d[i] <= '9'); v = v * 10 + (d[i] - '0'); } }
  if (neg) v = -v;
  strcpy(src, "%(be)spacket P { @%(kw)s("); size_t l = strlen(src);
  if (neg) src[l++] = '-'; if (hex) { src[l++] = '0'; src[l++] = 'x'; }
  for (int i = 0; i < nd; i++) src[l++] = d[i];
  strcpy(src + l, ") %(t)s k; uint8 z; }");
  int fits = v >= %(lo)sLL && v <= %(hi)sLL;
  csx_capture(1);
  int rc = cd_compile(src);
  csx_assert((rc == 0) == fits, fits ? "a constant of the type's range is rejected" : "a constant outside the type's range is accepted");
  if (rc) { csx_reach("rejected"); return; }
  csx_assert(cd_load() == 0, "the compiled image does not load");
  int mode = (int)csx_pick(0, 1, "mode"); csxh_failat = -1; csxh_data = buf; csxh_len = W + 1;
  csx_bytes(buf, W + 1, "message"); memcpy(old, buf, W + 1);
  cnd_vm_ctx c; memset(&c, 0, sizeof c); cnd_init(&c, mode ? CND_MODE_DECODE : CND_MODE_ENCODE, &csxh_prog, buf, W + 1, cd_cb, 0);
  int st = cnd_execute(&c);
  uint64_t wire = 0; for (int i = 0; i < W; i++) wire |= (uint64_t)(mode ? old : buf)[%(bx)s] << (8 * i);
  uint64_t want = (uint64_t)v & %(mask)s;
  if (mode == 0) { csx_assert(st == CND_ERR_OK && wire == want && csxh_vt.n == 1, "the constant is not written as declared"); csx_reach("encoded"); }
  else if (wire == want) { csx_assert(st == CND_ERR_OK && csxh_vt.n == 2 && csxh_vt.e[0].v == (uint64_t)v && csxh_vt.e[0].key == K("k"), "the declared constant is rejected or reported wrongly"); csx_reach("accepted"); }
  else { csx_assert(st == CND_ERR_VALIDATION && csxh_vt.n == 0, "another value than the constant is accepted"); csx_reach("refused"); }
}
'''


def sym(t, nd, hx, kw, be):
    op, w, s = T[t]
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if s else (0, (1 << (8 * w)) - 1)
    return Job("symbolic-%s-%s%s" % (t, kw, "-be" if be else ""), None, group="comp", time=700, weight=9, must=["rejected", "encoded", "accepted", "refused"], text=SYM % dict(w=w, nd=nd, hx=hx, kw=kw, t=t, lo=lo, hi=hi, be="@big_endian " if be else "", bx="W - 1 - i" if be else "i", mask="0x%xull" % ((1 << (8 * w)) - 1)))


def make(tier, seed):
    out = []
    q = tier == "quick"
    for t in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "byte", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"):
        op, n, s = T[t]
        hi, lo = ((1 << (8 * n - 1)) - 1, -(1 << (8 * n - 1))) if s else ((1 << (8 * n)) - 1, 0)
        vals = [(str(hi), hi), (str(lo), lo), ("0x" + "12" * n if n < 8 or s else "0xF123456789abcdef", int("12" * n, 16) if n < 8 or s else 0xF123456789abcdef)]
        if s:
            vals += [("-1", -1)]
        if q and len(t) <= 3:
            vals = vals[:1]
        for i, (tx, v) in enumerate(vals):
            for pre in ("", "@big_endian") if not q or i < 3 else ("",):
                ov = "be" if i == 1 else "le" if i == 2 else None
                out += jobs("%s=%s%s" % (t, tx, "-be" if pre else ""), Packet([I("uint8", "h"), Con(t, "k", tx, v, ov, kw="match" if i % 2 else "const"), I("uint16", "z")], pre=pre), n + 4, lo=n + 2 if q else 0)
    mk = lambda: [Con("uint16", "k", "0xA55A", 0xA55A), I("uint8", "m"), Con("int32", "l", "-2", -2, "be")]
    out += contexts("ctx", mk, 7, which="tsaiwb" if not q else "tsaiwb")
    out.append(sym("uint8", 3, 0, "const", 0))
    out.append(sym("int8", 3, 0, "match", 1))
    if not q:
        out += [sym("uint8", 3, 1, "match", 0), sym("int8", 3, 1, "const", 0), sym("uint16", 5, 0, "const", 1), sym("int16", 5, 0, "match", 0)]
    return out
