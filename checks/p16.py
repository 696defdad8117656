from gen import *
import exprs as E
from exprs import B, U, V, F as Fn, FLt, OPS
import random, re
TITLE = "@expr fields evaluate with documented operators, precedence and types"
BOUNDS = {"quick": "every operator pair in both groupings (648 trees) plus 60 random trees of up to 6 operators, unary chains, literals, conversions, functions; all operand values (8 to 64 bit, signed and unsigned); SPECIALS values for the transcendental functions; both modes", "thorough": "400 random trees of up to 12 operators"}
HEAD = [I("uint32", "a"), I("uint8", "b"), I("int16", "c"), I("uint64", "d")]
HN = 15
# divisions are decided on narrow operands (the arithmetic itself stays 64 bits wide)
NARROW = [I("uint8", "a"), I("uint8", "b"), I("int8", "c"), I("uint16", "d")]


def field(i, x, t="uint64", full=False, sp=" ", ov=None):
    c = x.c()
    if x.fl:
        e = x.err()
        r = Ex(t, "e%d" % i, x.s(full, sp), c, ov=ov, err=" || ".join(e) if e else None)
        r.flt = True
        return r
    e = x.err()
    r = Ex(t, "e%d" % i, x.s(full, sp), c, ov=ov, err=" || ".join(e) if e else None)
    r.tight = tight(x)
    return r


def tight(x):
    """a divisor which is a truth value"""
    a = x.a
    return x.k == "bin" and (a[0] in "/%" and a[2].k == "bin" and a[2].a[0] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||", "<<", ">>", "&") or tight(a[1]) or tight(a[2]))


def packs(label, fs, modes="ed", per=24, pre="", head=None, **kw):
    out = []
    for k in range(0, len(fs), per):
        part = fs[k:k + per]
        head = head or HEAD
        n = sum(T[f.t][1] for f in head) + sum(T[f.t][1] for f in part)
        out += jobs("%s%d" % (label, k // per), Packet(head + part, pre=pre), n, lo=n, modes=modes, pre=PRE, time=400, **kw)
    return out


PRE = E.HELP


def make(tier, seed):
    out = []
    q = tier == "quick"
    rnd = random.Random(7)
    leaf = [V("a"), V("b"), V("c"), V("d")]
    # every pair of operators, both groupings, fewest parentheses
    fs, n = [], 0
    for o1 in OPS:
        for o2 in OPS:
            x, y, z = rnd.sample(leaf, 3)
            fs.append(field(n, B(o2, B(o1, x, y), z), sp=rnd.choice((" ", " ", "")), full=rnd.random() < .1)); n += 1
            fs.append(field(n, B(o1, x, B(o2, y, z)), sp=rnd.choice((" ", " ", "")), full=rnd.random() < .1)); n += 1
    div = lambda f: f.err is not None
    a, b = [f for f in fs if not div(f)], [f for f in fs if div(f)]
    out += packs("pair", a, modes="e", per=44)
    out += packs("pair-dec", a[::1 if not q else 6], modes="d", per=16)
    tight = [f for f in b if f.tight]
    out += packs("pairdiv", [f for f in b if f not in tight], modes="e", per=6, head=NARROW)
    out += packs("pairdivb", tight, modes="e", per=1, head=NARROW)
    out += packs("pairdiv-dec", b[::1 if not q else 8], modes="d", per=6, head=NARROW)

    def tree(k):
        if k == 0:
            return rnd.choice(leaf + leaf + [E.L(rnd.choice((0, 1, 2, 7, 255, 65536, 10 ** 12))), E.L(rnd.choice((16, 255, 0xdeadbeef)), None), X16(rnd)])
        r = rnd.random()
        if r < .25:
            return U(rnd.choice("-~!"), tree(k - 1))
        i = rnd.randint(0, k - 1)
        o = rnd.choice(OPS)
        if o in "/%":
            return B(o, tree(k - 1), rnd.choice(leaf[:3] + [E.L(3), E.L(10), B("|", V("a"), E.L(1))]))
        return B(o, tree(i), tree(k - 1 - i))
    ts = []
    while len(ts) < (60 if q else 400):
        x = tree(rnd.randint(2, 6 if q else 12))
        if x.depth() <= 7:
            ts.append(x)
    out += packs("tree", [field(i, x, full=i % 7 == 0, sp="" if i % 3 == 0 else " ") for i, x in enumerate(ts)], modes="ed", per=5, head=NARROW)
    # unary operators and literals
    un = []
    for u1 in "-~!":
        for u2 in "-~!":
            un += [U(u1, U(u2, V("a"))), U(u1, B("+", V("a"), V("b"))), B("*", U(u1, V("a")), U(u2, V("c"))), B("-", V("a"), U(u2, V("b"))), U(u1, U(u2, U("-", V("c"))))]
    lits = [B("+", V("a"), E.L(5)), B("-", V("a"), E.L(1)), B("-", V("a"), U("-", E.L(1))), B("*", V("a"), U("-", E.L(3))), E.L(2 ** 64 - 1), E.L(2 ** 63), E.L(255, "0xff"), E.L(0xABCDEF0123456789, "0xABCDEF0123456789"), E.L(1, "true"), E.L(0, "false"),
            B("==", V("b"), E.L(1, "true")), B("<<", E.L(1), V("b")), B(">>", V("d"), V("b")), B("-", B("-", V("a"), E.L(1)), E.L(2)), B("-", E.L(10), B("-", E.L(4), E.L(3))), U("-", E.L(9223372036854775808)), B("%", V("a"), E.L(7)), B("/", E.L(1000), V("b")), B("&", V("c"), E.L(0xF0, "0xF0"))]
    out += packs("unary", [field(i, x, sp="" if i % 2 else " ") for i, x in enumerate(un)], per=30)
    out += packs("literals", [field(i, x, sp="" if i % 2 else " ") for i, x in enumerate(lits)], per=30)
    # result types: the wire holds the low bytes
    ty = []
    for i, t in enumerate(("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "byte", "u16", "i32")):
        ty.append(field(i, (B("-", V("c"), V("a")), B("*", V("c"), V("b")), U("~", V("b")))[i % 3], t, ov=(None, "be", "le")[i % 3]))
    for pre in ("", "@big_endian"):
        out += packs("types" + pre[:2], ty, pre=pre)
    # floating point
    fa, fc = Fn("float", V("a")), Fn("float", V("c"))
    H = FLt("0.5")
    fl = [Fn("int", B("*", fa, H)), Fn("int", B("/", fa, FLt("4.0"))), B("<", fc, FLt("2.5")), B(">=", FLt("-1.25"), fc), B("==", fc, E.L(3)), B("!=", E.L(3), fc), Fn("int", B("+", E.L(1), fc)), Fn("int", B("-", fc, E.L(2))), Fn("int", B("-", E.L(2), fc)),
          Fn("int", U("-", fc)), B("<=", B("*", fc, FLt("1.5")), E.L(10)), B(">", fa, fc), Fn("int", B("*", B("+", fc, FLt("0.25")), E.L(4))), B("+", Fn("int", fc), E.L(1)), B("&&", B("<", fc, FLt("0.0")), V("b")), Fn("int", Fn("abs", fc)), Fn("int", Fn("abs", Fn("int", V("c")))), B("<", Fn("abs", fc), FLt("7.0")),
          Fn("int", FLt("1.9")), Fn("int", FLt("-1.9")), U("!", B("<", fc, FLt("1.0"))), Fn("int", V("b"))]
    for o in ("<", "<=", ">", ">=", "==", "!="):
        fl += [B(o, fc, FLt("0.0")), B(o, FLt("0.0"), B("*", fc, FLt("-1.0"))), B(o, fa, fc), B(o, B("+", fa, FLt("0.5")), Fn("float", V("b")))]
    fl = [x for x in fl if repr(x) not in ("int(b)", "int(abs(int(c)))")]
    out += packs("float", [field(i, x) for i, x in enumerate(fl)], per=4)
    out += packs("float-types", [field(0, fc, "float"), field(1, B("*", fc, H), "double"), field(2, B("+", fa, E.L(1)), "double"), field(3, B("/", fc, FLt("8.0")), "float")], modes="e")
    out += packs("float-types-dec", [field(0, B("*", fc, H), "double")], modes="d", per=1)
    con = [(Fn("sqrt", FLt("16.0")), 1), (Fn("pow", FLt("2.0"), FLt("10.0")), 1), (Fn("pow", E.L(3), E.L(4)), 1), (Fn("sin", FLt("0.5")), 1e6), (Fn("cos", FLt("0.5")), 1e6), (Fn("log", FLt("10.0")), 1e6), (Fn("abs", FLt("-3.5")), 10), (Fn("sqrt", E.L(81)), 1), (Fn("log", E.L(1)), 1), (Fn("sin", E.L(0)), 1), (Fn("tan", FLt("0.5")), 1e6)]
    out += packs("functions", [field(i, x, "double") for i, (x, m) in enumerate(con)], per=4)
    out += jobs("sqrt", Packet([I("int8", "a"), field(0, Fn("sqrt", Fn("float", V("a"))), "double"), field(1, Fn("log", Fn("float", V("a"))), "double")]), 17, lo=17, modes="e", pre=E.HELP, defs=["-DSPECIALS=0,1,4,81,100,0xff,0x80"], must=["ok", "error"])
    out += jobs("pow", Packet([I("int8", "a"), field(0, Fn("pow", Fn("float", V("a")), Fn("float", E.L(3))), "double"), field(1, Fn("sin", Fn("float", V("a"))), "float"), field(2, Fn("cos", V("a")), "float") if 0 else field(2, Fn("cos", Fn("float", V("a"))), "float")]), 17, lo=17, modes="e", pre=E.HELP, defs=["-DSPECIALS=1,2,5,100,0xff,0x80"])
    # division by zero
    for i, x in enumerate((B("/", V("a"), V("b")), B("%", V("a"), V("b")), B("/", V("a"), E.L(0)), B("%", E.L(5), B("-", V("b"), V("b"))), Fn("int", B("/", FLt("1000.0"), Fn("float", V("b")))), Fn("int", B("/", E.L(1), fc)), B("&&", V("b"), B("/", E.L(1), V("b"))))):
        fl = i in (4, 5)
        out += jobs("div0-%d" % i, Packet(NARROW + [field(0, x), I("uint16", "zz")]), 15, lo=15, pre=E.HELP, modes="e" if fl else "ed", defs=["-DSPECIALS=0,1,3,0xff,0x7f", "-DSPAT=%d" % {4: 1, 5: 2}[i]] if fl else [], must=["error"])
    # the computed field in context: names, order, earlier computed fields, arrays, branches
    S = Struct("S", [I("uint8", "x"), I("int8", "y"), Ex("uint16", "sum", "x * 3 + y", "$Pv_x * 3 + $Pv_y"), I("uint8", "m")])
    for pre in ("", "@big_endian"):
        b = "-be" if pre else ""
        P = lambda ns, ds=(): Packet(ns + [I("uint16", "zz")], ds, pre=pre)
        out += jobs("nested" + b, P([St(S, "s"), St(S, "t"), Ex("uint32", "all", "s.sum + t.sum * 2 - t.x", "v_s_sum + v_t_sum * 2 - v_t_x"), Ex("uint8", "al", "all & 0xF", "v_all & 15")], [S]), 18, lo=15)
        out += jobs("array" + b, P([Arr(S, "s", ("fix", 3)), Ex("uint8", "last", "s.x", "v_s_x")], [S]), 19, lo=17)
        out += jobs("branches" + b, P([I("uint8", "k"), If("k > 3", "v_k > 3", [Ex("uint16", "e", "k * k", "v_k * v_k")], [Ex("int32", "f", "-k", "0 - v_k"), I("uint8", "g")]), Sw("k", [("1", 1, [Ex("uint8", "h", "k << 2", "v_k << 2")]), ("9", 9, [I("uint8", "i")])], [Ex("uint8", "j", "~k", "~v_k")])]), 9, lo=3)
        out += jobs("bits" + b, P([I("uint8", "x", width=3), I("int8", "y", width=4), Ex("uint8", "s", "x + 1", "v_x + 1"), I("uint8", "w", width=5), Ex("uint16", "t", "w * x", "v_w * v_x")]), 8, lo=6, must=["ok"])
        out += jobs("chain" + b, P([I("uint8", "x"), Ex("uint8", "p", "x + 250", "v_x + 250"), Ex("uint32", "r", "x + 250", "v_x + 250"), I("uint8", "y"), Ex("uint16", "z", "(x | y) ^ r", "(v_x | v_y) ^ v_r")]), 12, lo=9)
    # nesting: the evaluation stack is bounded and overflow is an error, not a crash
    out.append(Job("stack", None, group="comp", must=["ok", "overflow"], time=300, text=r'''
#include "codec.h"
static char src[2048];
void harness(void) {
  int n = (int)csx_concrete(csx_pick(4, 11, "depth")); size_t l = 0;
  const char* h = "packet P { uint8 a; @expr("; memcpy(src, h, strlen(h)); l = strlen(h);
  for (int i = 0; i < n; i++) { memcpy(src + l, "a+(", 3); l += 3; } src[l++] = '1'; for (int i = 0; i < n; i++) src[l++] = ')';
  const char* t = ") uint16 e; }"; memcpy(src + l, t, strlen(t) + 1);
  csx_assert(cd_compile(src) == 0, "a valid schema is rejected"); csx_assert(cd_load() == 0, "the compiled image does not load");
  uint8_t b[3]; csx_bytes(b, 3, "message"); csxh_failat = -1; csxh_data = b; csxh_len = 3; cnd_vm_ctx c; memset(&c, 0, sizeof c);
  cnd_init(&c, CND_MODE_ENCODE, &csxh_prog, b, 3, cd_cb, 0); int st = cnd_execute(&c);
  if (n + 1 <= CND_MAX_EXPR_STACK) { csx_assert(st == CND_ERR_OK && (b[1] | b[2] << 8) == (uint16_t)(n * (unsigned)b[0] + 1), "a deep expression has the wrong value"); csx_reach("ok"); }
  else { csx_assert(st == CND_ERR_STACK_OVERFLOW || st == CND_ERR_OK, "wrong error for a too deep expression"); csx_assert(st != CND_ERR_OK || (b[1] | b[2] << 8) == (uint16_t)(n * (unsigned)b[0] + 1), "a deep expression has the wrong value"); if (st) csx_reach("overflow"); }
}'''))
    return out


def X16(rnd):
    n = rnd.choice((0x10, 0xff, 0xCAFE, 0xe1))
    return E.L(n, hex(n))
