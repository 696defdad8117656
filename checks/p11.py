from gen import *
TITLE = "Range validation accepts exactly the values inside the declared bounds"
BOUNDS = {"quick": "boundary bounds of every type over all values (64-bit, IEEE), symbolic bound literals for 8-bit types", "thorough": "plus symbolic literals for 16-bit types and more bounds"}

SYM = r'''
#include "codec.h"
#define W %(w)d
static char src[128]; static uint8_t buf[W + 1], old[W + 1];
static int64_t num(char* s, size_t* l, int nd, int neg) {
  int64_t v = 0; if (neg) s[(*l)++] = '-';
  char d[6]; csx_bytes(d, nd, "digits");
  for (int i = 0; i < nd; i++) { csx_assume(d[i] >= '0' && d[i] <= '9'); v = v * 10 + (d[i] - '0'); s[(*l)++] = d[i]; }
  return neg ? -v : v;
}
void harness(void) {
  strcpy(src, "%(be)spacket P { @range("); size_t l = strlen(src);
  int s = (int)csx_pick(0, 3, "signs");
  int64_t lo = num(src, &l, %(d1)d, s & 1); src[l++] = ','; src[l++] = ' ';
  int64_t hi = num(src, &l, %(d2)d, s >> 1);
  strcpy(src + l, ") %(t)s k; uint8 z; }");
  int fits = lo >= %(lo)sLL && lo <= %(hi)sLL && hi >= %(lo)sLL && hi <= %(hi)sLL && lo <= hi;
  csx_capture(1);
  int rc = cd_compile(src);
  csx_assert((rc == 0) == fits, fits ? "a range of the type is rejected" : "an empty range or one outside the type is accepted");
  if (rc) { csx_reach("rejected"); return; }
  csx_assert(cd_load() == 0, "the compiled image does not load");
  int mode = (int)csx_pick(0, 1, "mode"); csxh_failat = -1; csxh_data = buf; csxh_len = W + 1;
  csx_bytes(buf, W + 1, "message"); memcpy(old, buf, W + 1);
  cnd_vm_ctx c; memset(&c, 0, sizeof c); cnd_init(&c, mode ? CND_MODE_DECODE : CND_MODE_ENCODE, &csxh_prog, buf, W + 1, cd_cb, 0);
  int st = cnd_execute(&c);
  uint64_t wire = 0; for (int i = 0; i < W; i++) wire |= (uint64_t)old[%(bx)s] << (8 * i);
  int64_t v = (int64_t)cd_norm(%(op)s, mode ? wire : sup(0));
  int in = v >= lo && v <= hi;
  csx_assert(st == (in ? CND_ERR_OK : CND_ERR_VALIDATION), in ? "a value inside the range is rejected" : "a value outside the range is accepted");
  csx_reach(in ? "accepted" : "refused");
}
'''


def sym(t, d1, d2, be):
    op, w, s = T[t]
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if s else (0, (1 << (8 * w)) - 1)
    return Job("symbolic-%s-%d-%d" % (t, d1, d2), None, group="comp", time=700, weight=9, must=["rejected", "accepted", "refused"], text=SYM % dict(w=w, d1=d1, d2=d2, t=t, lo=lo, hi=hi, op=op, be="@big_endian " if be else "", bx="W - 1 - i" if be else "i"))


def rng(t, name, lo, hi, ov=None, kw="range"):
    op, n, s = T[t]
    if s == 2:
        return I(t, name, ov, "@range(%s, %s)" % (lo, hi), "o_num(%s, v) >= (double)(%s)%s && o_num(%s, v) <= (double)(%s)%s" % (op, "float" if n == 4 else "double", lo, op, "float" if n == 4 else "double", hi))
    a, b = (lit(int(lo, 0)), lit(int(hi, 0)))
    c = "(int64_t)" if s else ""
    return I(t, name, ov, "@range(%s, %s)" % (lo, hi), "v >= %s%s && v <= %s%s" % (c, a, c, b))


def make(tier, seed):
    out = []
    q = tier == "quick"
    for t in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "byte", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"):
        op, n, s = T[t]
        mx, mn = ((1 << (8 * n - 1)) - 1, -(1 << (8 * n - 1))) if s else ((1 << (8 * n)) - 1, 0)
        vals = [(str(mn), str(mx)), (str(mn), str(mn)), (str(mx), str(mx)), ("10", "100"), ("7", "7"), ("0x10", "0x7F"), (str(mx - 1), str(mx))]
        if s:
            vals += [("-5", "5"), ("-100", "-2"), ("-1", "0"), (str(mn), str(mn + 1))]
        else:
            vals += [("0", "1"), (str(mx // 2), str(mx // 2 + 1))]
        if q and len(t) <= 3:
            vals = vals[3:4]
        for i, (a, b) in enumerate(vals):
            ns = lambda: [I("uint8", "h"), rng(t, "k", a, b, (None, "be", "le")[i % 3]), I("uint16", "z")]
            out += jobs("%s[%s,%s]" % (t, a, b), Packet(ns(), pre="@big_endian" if i % 2 else ""), n + 4, lo=n + 3 if q else 0, must=["ok"] + (["invalid"] if (a, b) != (str(mn), str(mx)) else []))
    for t in ("float", "double", "f32", "f64"):
        n = T[t][1]
        fs = [("-1.5", "1.5"), ("0", "0"), ("0.0", "100"), ("-273.15", "-0.1"), ("10", "20"), ("0.1", "0.3")]
        for i, (a, b) in enumerate(fs if len(t) > 3 else fs[:1]):
            out += jobs("%s[%s,%s]" % (t, a, b), Packet([rng(t, "k", a, b, (None, "be", "le")[i % 3]), I("uint8", "z")], pre="@big_endian" if i % 2 else ""), n + 1, lo=n, must=["ok", "invalid"])
    mk = lambda: [rng("uint16", "k", "5", "600"), I("uint8", "m"), rng("int8", "l", "-3", "3"), rng("float", "f", "-1", "1", "be")]
    out += contexts("ctx", mk, 8, must=["ok", "invalid"])
    # every element of an array
    for pre in ("", "@big_endian"):
        out += jobs("elements" + ("-be" if pre else ""), Packet([Arr("int16", "v", ("pre", "uint8"), deco="@range(-4, 9)", epost="v >= -4 && v <= 9"), Arr("uint8", "w", ("fix", 2), deco="@range(1, 3)", epost="v >= 1 && v <= 3"), I("uint8", "z")], pre=pre), 9, lo=4, raw=1, must=["ok", "invalid"])
    out += [sym("uint8", 2, 3, 0), sym("int8", 3, 2, 1), sym("uint8", 3, 3, 1)]
    if not q:
        out += [sym("int8", 3, 3, 0), sym("uint16", 4, 5, 0), sym("int16", 5, 3, 1), sym("uint32", 3, 4, 0)]
    return out
