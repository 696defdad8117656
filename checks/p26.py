from csxlib import Job
from texts import *
TITLE = "Numeric literals in schemas mean exactly what they say"
BOUNDS = {"quick": "every position a number may take (66 positions, all integer types): free literals of up to 3 digits in decimal, hexadecimal and negative form, literals around the limits of the position and around 2^64 with the last 2 digits arbitrary, one digit more than fits, leading zeros, fractions; float positions: up to 2 arbitrary digits before and behind the point, hexadecimal, many digits", "thorough": "one more arbitrary digit everywhere"}
NOTE = "The operand is read from the compiled image; what the virtual machine does with it is decided by P05-P18."
H = '#include "literal.h"\n'
INT = H + '''int harness(void) { static const char* const S[] = {%s}; static const uint8_t N[] = {%s}; size_t k = csx_pick(0, sizeof N - 1, "stem");
  int kind = (int)csx_param(0), neg = (int)csx_param(1); li_make(kind, neg, S[k], N[k], kind == 2 ? 1 : 0);
  int fits = kind != 2 && li_fits(%s);
  int rc = li_compile(%s, %s);
  csx_assert((rc == 0) == fits, fits ? "a number which fits is rejected" : "a number which does not fit is accepted");
  if (rc == 0 && %d) { const uint8_t* p = li_find(%d, %d); uint64_t got = vf_u(p + %d, %d), want = csxh_v; if (%d < 8) want &= (1ull << (8 * (%d & 7))) - 1; csx_assert(got == want, "the number written is not the number used"); }
  return 0; }
'''
FLT = H + '''int harness(void) { static const char* const S[] = {%s}; static const uint8_t N[] = {%s}; size_t k = csx_pick(0, sizeof N - 1, "stem");
  int kind = (int)csx_param(0), neg = (int)csx_param(1); li_make(kind, neg, S[k], N[k], kind == 2 ? 1 + (N[k] > 2) : 0);
  int rc = li_compile(%s, %s); csx_assert(rc == 0, "a number which fits is rejected");
  const uint8_t* p = li_find(%d, %d) + %d; uint64_t want = 0; if (%d == 4) { float f = (float)csxh_d; memcpy(&want, &f, 4); } else memcpy(&want, &csxh_d, 8);
  csx_assert(vf_u(p, %d) == want, "the number written is not the number used"); return 0; }
'''
OP = dict(META_VERSION=5, ARR_FIXED=0x34, BIT_U=0x20, BIT_I=0x21, PAD=0x23, FILL=0x24, STR_NULL=0x30, CONST=0x40, RANGE=0x42, SCALE=0x43, CRC16=0x44, ADD=0x45, SUB=0x46, MUL=0x47, DIV=0x48, CRC32=0x49, ENUM=0x4B, POLY=0x4C, SPLINE=0x4D, SWITCH=0x51, IMM=0x61)
TY = [("uint8", 1, 0), ("int8", 1, 1), ("uint16", 2, 0), ("int16", 2, 1), ("uint32", 4, 0), ("int32", 4, 1), ("uint64", 8, 0), ("int64", 8, 1)]


def lim(n, s):
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)


def positions():
    P = [("version", "@version(", ")packet P{uint8 a;}", OP["META_VERSION"], 0, 1, 1, 0, 255, 0),
         ("arraysize", "packet P{uint8 a[", "];}", OP["ARR_FIXED"], 0, 3, 4, 0, 2**32 - 1, 0),
         ("count", "packet P{@count(", ")uint8 a[];}", OP["ARR_FIXED"], 0, 3, 4, 0, 2**32 - 1, 0),
         ("len", "packet P{@len(", ")string a[]until 0;}", OP["ARR_FIXED"], 0, 3, 4, 0, 2**32 - 1, 0),
         ("width-u", "packet P{uint64 a:", ";}", OP["BIT_U"], 0, 3, 1, 1, 64, 1),
         ("width-i", "packet P{int64 a:", ";}", OP["BIT_I"], 0, 3, 1, 1, 64, 1),
         ("width-bool", "packet P{bool a:", ";}", 0, 0, 0, 0, 1, 1, 1),
         ("pad", "packet P{uint8 b:3;@pad(", ");uint8 a;}", OP["PAD"], 0, 1, 1, 0, 255, 0),
         ("fill", "packet P{uint8 b:3;@fill(", ");uint8 a;}", OP["FILL"], 0, 1, 1, 0, 1, 0),
         ("max", "packet P{string a max ", ";}", OP["STR_NULL"], 0, 3, 2, 0, 65535, 0),
         ("until", "packet P{string a until ", ";}", 0, 0, 0, 0, 0, 0, 0),
         ("until-max", "packet P{string a until 0 max ", ";}", OP["STR_NULL"], 0, 3, 2, 0, 65535, 0),
         ("max-array", "packet P{string a[2] until 0 max ", ";}", OP["STR_NULL"], 0, 3, 2, 0, 65535, 0),
         ("expr", "packet P{@expr(", ")uint64 a;}", OP["IMM"], 0, 1, 8, -2**63, 2**64 - 1, 0),
         ("expr-2nd", "packet P{uint8 b;@expr(b+", ")uint64 a;}", OP["IMM"], 0, 1, 8, -2**63, 2**64 - 1, 0),
         ("if", "packet P{uint8 b;if(b==", "){uint8 a;}}", OP["IMM"], 0, 1, 8, -2**63, 2**64 - 1, 0),
         ("case", "packet P{uint8 b;switch(b){case ", ":uint8 a;}}", OP["SWITCH"], 0, 6, 8, -2**63, 2**64 - 1, 2),
         ("crc-width16", "packet P{uint8 b;@crc(", ")uint16 a;}", 0, 0, 0, 0, 16, 16, 1),
         ("crc-width32", "packet P{uint8 b;@crc(", ")uint32 a;}", 0, 0, 0, 0, 32, 32, 1)]
    for w, t in ((16, "uint16"), (32, "uint32")):
        for i, n in enumerate(("poly", "init", "xor")):
            P.append(("crc%d-%s" % (w, n), "packet P{uint8 b;@crc(%d)@crc_%s(" % (w, n), ")%s a;}" % t, OP["CRC%d" % w], 0, 1 + i * w // 8, w // 8, 0, 2**w - 1, 0))
    for n in ("add", "sub", "mul", "div"):
        P.append((n, "packet P{@%s(" % n, ")int32 a;}", OP[n.upper()], 0, 1, 8, -2**63, 2**63 - 1, 0))
    for t, n, s in TY:
        lo, hi = lim(n, s)
        P.append(("const-" + t, "packet P{@const(", ")%s a;}" % t, OP["CONST"], 0, 4, n, lo, hi, 0))
        P.append(("rangemin-" + t, "packet P{@range(", ",%d)%s a;}" % (hi, t), OP["RANGE"], 0, 2, n, lo, hi, 0))
        P.append(("rangemax-" + t, "packet P{@range(%d," % lo, ")%s a;}" % t, OP["RANGE"], 0, 2 + n, n, lo, hi, 0))
        P.append(("enum-" + t, "enum E:%s{A=" % t, "}packet P{E e;}", OP["ENUM"], 0, 4, n, lo, hi, 0))
        P.append(("enumnext-" + t, "enum E:%s{A=" % t, ",B}packet P{E e;}", OP["ENUM"], 0, 4, n, lo, hi - 1, 2))
    return P


FP = [("scale", "packet P{@scale(", ")uint16 a;}", "SCALE", 1, 8, 0), ("offset", "packet P{@scale(2)@offset(", ")uint16 a;}", "SCALE", 9, 8, 0), ("offset-only", "packet P{@offset(", ")int8 a;}", "SCALE", 9, 8, 0), ("poly0", "packet P{@poly(", ",2)uint16 a;}", "POLY", 2, 8, 0), ("poly2", "packet P{@poly(1,2,", ")uint16 a;}", "POLY", 18, 8, 0),
      ("spline-x", "packet P{@spline(", ",1,9999999,2)uint16 a;}", "SPLINE", 2, 8, 0), ("spline-y", "packet P{@spline(0,1,2,", ")uint16 a;}", "SPLINE", 26, 8, 0), ("range-f64-min", "packet P{@range(", ",1e)double a;}".replace("1e", "1" + "0" * 30), "RANGE", 2, 8, 0), ("range-f64-max", "packet P{@range(-1" + "0" * 30 + ",", ")double a;}", "RANGE", 10, 8, 0),
      ("range-f32-min", "packet P{@range(", ",1" + "0" * 30 + ")float a;}", "RANGE", 2, 4, 0), ("range-f32-max", "packet P{@range(-1" + "0" * 30 + ",", ")float a;}", "RANGE", 6, 4, 0), ("expr-float", "packet P{@expr(", ")double a;}", "IMM", 1, 8, 1), ("expr-arg", "packet P{@expr(2.0*", ")double a;}", "IMM", 1, 8, 1)]


def stems(lo, hi, neg, base, extra):
    """(leading digits, arbitrary digits)"""
    f = (lambda v: "%d" % v) if base == 10 else (lambda v: "%x" % v)
    a = 2 + extra
    out = [("", 1), ("", 2), ("", 3), ("00", a)]
    for b in {abs(lo) if neg else hi, 2**64 - 1, 2**63, 255}:
        t = f(b)
        if len(t) > 3:
            out.append((t[:-a], a))
            out.append((t[:-1], a))
    out.append(((f(2**64) + "0" * 30)[:40], 1))
    return sorted(set(out))


def make(tier, seed):
    q = tier == "quick"
    x = 0 if q else 1
    out = []
    for nm, a, b, op, k, off, w, lo, hi, conc in positions():
        for kind, neg in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)):
            if kind == 2:
                st = [("", 2), ("1", 2)]
            else:
                st = stems(lo, hi, neg, 16 if kind == 1 else 10, x)
            if conc and q:
                st = [(s, min(n, 2)) for s, n in st]
            txt = INT % (", ".join(cq(s) for s, n in st), ", ".join(str(n) for s, n in st), "%dull, %d, %dull" % (abs(lo), lo < 0, hi), cq(a), cq(b), 1 if op else 0, op, k, off, w or 1, w or 1, w or 1)
            if kind == 2 and nm.startswith(("expr", "if")):
                continue
            out.append(Job("%s-%s%s" % (nm, "neg-" if neg else "", ["dec", "hex", "frac"][kind]), None, group="comp", text=txt, params=[kind, neg, 0, 0, 0, 0, 0], time=400, weight=4 if conc else 2))
    for nm, a, b, op, off, w, intlit in FP:
        for kind, neg in ((0, 0), (0, 1), (1, 0), (2, 0), (2, 1)):
            if intlit and kind != 2:
                continue
            st = [("", 1), ("", 2), ("12345", 1), ("9007199254740", 2)] if kind == 0 else [("", 2), ("ff", 1)] if kind == 1 else [("", 2), ("1", 3), ("", 3), ("9007199254", 3), ("00001", 2)]
            if nm == "spline-x" or nm.startswith("range"):
                st = [s for s in st if len(s[0]) < 6]
            txt = FLT % (", ".join(cq(s) for s, n in st), ", ".join(str(n) for s, n in st), cq(a), cq(b), OP[op], 1 if nm == "expr-arg" else 0, off, w, w)
            out.append(Job("%s-%s%s" % (nm, "neg-" if neg else "", ["dec", "hex", "frac"][kind]), None, group="comp", text=txt, params=[kind, neg, 0, 0, 0, 0, 1], time=400, weight=3, must=["accepted"]))
    return out
