from gen import *
TITLE = "Linear, polynomial and spline scaling follow the declared curve"
BOUNDS = "all raw values and host doubles (IEEE bit level) on decode and, for linear and spline curves, on encode; polynomial inverse over host values at exact curve points and special values; round trip of all 8-bit raw values per curve"

SPECIAL = ["0", "0x8000000000000000", "0x7ff0000000000000", "0xfff0000000000000", "0x7ff8000000000001", "0x7fefffffffffffff", "0xffefffffffffffff", "1", "0x3fe0000000000000", "0xbfe0000000000000", "0x43e0000000000000", "0xc3e0000000000000", "0x43f0000000000000", "0x40e0000000000000", "0x3ff8000000000000", "0x405edd2f1a9fbe77"]

# the host value is one of a list (solver picks); everything else symbolic
PICK = r'''
#define NSUP_PICK
static const unsigned long long SPEC[] = {%s};
'''

# raw -> host -> raw is the identity
RT = r'''
#include "codec.h"
static uint8_t a[8], b[8]; static uint64_t val; static int calls;
static cnd_error_t cb(cnd_vm_ctx* c, uint16_t key, uint8_t type, void* p) { (void)key; (void)type; calls++; if (c->mode == CND_MODE_DECODE) val = *(uint64_t*)p; else *(uint64_t*)p = val; return CND_ERR_OK; }
void harness(void) {
  csx_assert(cd_compile(%s) == 0, "a valid schema is rejected");
  csx_assert(cd_load() == 0, "the compiled image does not load");
  cnd_vm_ctx c; int64_t raw = (int64_t)csx_pick(0, %d, "raw") + %d;
  %s
  for (int i = 0; i < %d; i++) a[%s] = (uint8_t)((uint64_t)raw >> (8 * i));
  memset(&c, 0, sizeof c); cnd_init(&c, CND_MODE_DECODE, &csxh_prog, a, %d, cb, 0); csx_assert(cnd_execute(&c) == CND_ERR_OK && calls == 1, "decoding fails");
  memset(&c, 0, sizeof c); cnd_init(&c, CND_MODE_ENCODE, &csxh_prog, b, %d, cb, 0); csx_assert(cnd_execute(&c) == CND_ERR_OK && calls == 2, "encoding fails");
  for (int i = 0; i < %d; i++) csx_assert(a[i] == b[i], "encoding the decoded value gives another raw value");
  csx_reach("ok");
}
'''


SPD = "-DSPECIALS=" + ",".join(v + "ull" for v in SPECIAL)


def rt(label, cv, lo, hi, conc, pre=""):
    w = T[cv.t][1]
    return Job("roundtrip-" + label + ("-be" if pre else ""), None, group="comp", must=["ok"], time=400, weight=4, text=RT % (cstr(Packet([cv], pre=pre).src), hi - lo, lo, "raw = (int64_t)csx_concrete((uint64_t)raw);" if conc else "", w, "%d - i" % (w - 1) if pre else "i", w, w, w))


def make(tier, seed):
    out = []
    q = tier == "quick"
    lin = [([0.5], "half"), ([2, -10], "two"), ([0.1, 3.5], "tenth"), ([-1.5, 0.25], "neg"), ([0.01, -273.15], "temp")]
    types = ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double")
    for ti, t in enumerate(types):
        n = T[t][1]
        for i, (ps, nm) in enumerate(lin):
            if q and (i + ti) % 3:
                continue
            sym = not q or (t, nm) in (("uint8", "half"), ("int16", "tenth"), ("uint32", "two"), ("double", "neg"), ("int64", "half"))
            for m in "de":
                out += jobs("scale-%s-%s" % (t, nm), Packet([I("uint8", "h"), Cv(t, "v", "scale", ps, (None, "be", "le")[i % 3]), I("uint16", "z")], pre="@big_endian" if ti % 2 else ""), n + 3, lo=n + 2, modes=m, time=200, defs=() if m == "d" or sym else [SPD, "-DSPAT=1"])
        out += jobs("offset-%s" % t, Packet([Cv(t, "v", "offset", [1.5 if ti % 2 else -40]), I("uint8", "z")], pre="" if ti % 2 else "@big_endian"), n + 1, lo=n, time=200, modes="d" if q else "de")
        for pi, po in enumerate(([1.5, 2.0], [0.5, -1, 0.25], [3], [0, 1, 0, 0.125])):
            if q and (pi + ti) % 2:
                continue
            out += jobs("poly%d-%s" % (pi, t), Packet([Cv(t, "v", "poly", po), I("uint8", "z")], pre="@big_endian" if pi % 2 else ""), n + 1, lo=n, modes="d", time=200)
        for si, sp in enumerate(([0, 0, 10, 100], [-10, 5, 0, 5, 10, 25, 20, -5], [0, 100, 50, 50, 100, 0])):
            if q and (si + ti) % 2:
                continue
            out += jobs("spline%d-%s" % (si, t), Packet([Cv(t, "v", "spline", sp), I("uint8", "z")], pre="@big_endian" if si % 2 else ""), n + 1, lo=n, modes="d", time=300)
            out += jobs("spline%d-%s" % (si, t), Packet([Cv(t, "v", "spline", sp), I("uint8", "z")], pre="@big_endian" if si % 2 else ""), n + 1, lo=n, modes="e", time=300, defs=() if (t, si) == ("uint8", 0) or not q else [SPD])
    # encoders with a polynomial: host values from a list of special ones and points of the curve
    for pi, po in enumerate(([1.5, 2.0], [0.5, 1, 0.25], [3], [0, 1, 0, 0.125], [0, 0, 1], [2.5, 0.001])):
        for t in ("uint8", "int16", "uint32", "int64", "float") if not q else ("uint8", "int16", "int64"):
            pts = [sum(c * x ** i for i, c in enumerate(po)) for x in (0, 1, 2, 3, 7, 100, -1, -5, 255, 300)]
            import struct
            vals = SPECIAL + ["0x%x" % struct.unpack("<Q", struct.pack("<d", float(p)))[0] for p in pts]
            out += jobs("polyenc%d-%s" % (pi, t), Packet([Cv(t, "v", "poly", po), I("uint8", "z")], pre="@big_endian" if pi % 2 else ""), T[t][1] + 1, lo=T[t][1] + 1, modes="e", defs=["-DSPECIALS=" + ",".join(v + ("ull") for v in vals)], time=200)
    # round trips
    for i, (ps, nm) in enumerate(lin):
        out.append(rt("scale-%s-u8" % nm, Cv("uint8", "v", "scale", ps), 0, 255, 1, "@big_endian" if i % 2 else ""))
        out.append(rt("scale-%s-i16" % nm, Cv("int16", "v", "scale", ps), -32768 if i % 2 else 32600, -32600 if i % 2 else 32767, 1, "" if i % 2 else "@big_endian"))
    for i, po in enumerate(([1.5, 2.0], [0, 1, 0, 0.125], [0.5, 1, 0.25])):
        out.append(rt("poly%d-u8" % i, Cv("uint8", "v", "poly", po), 0, 255, 1, "@big_endian" if i % 2 else ""))
    for i, sp in enumerate(([0, 0, 100, 1000, 255, 1155], [0, 100, 255, 0], [0, -50, 10, 0, 255, 500])):
        out.append(rt("spline%d-u8" % i, Cv("uint8", "v", "spline", sp), 0, 255, 1))
    mk = lambda: [Cv("int16", "k", "scale", [0.5, 2]), I("uint8", "m"), Cv("uint8", "l", "offset", [-3]), I("int16", "n", "be")]
    out += contexts("ctx", mk, 6, time=300, modes="d")
    out += contexts("ctx", mk, 6, time=300, modes="e", which="tw" if q else "tsaiwb", pres=("@big_endian",))
    mk = lambda: [Cv("int16", "k", "poly", [1, 2, 0.5]), I("uint8", "m"), Cv("float", "l", "scale", [3, 1]), I("float", "n", "be")]
    out += contexts("ctx2", mk, 11, modes="d", time=300)
    return out
