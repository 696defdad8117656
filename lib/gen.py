"""A schema as a tree of nodes: prints the schema text and, independently, the C oracle for it (see harness/codec.h)."""
from csxlib import Job

T = {"uint8": ("OP_IO_U8", 1, 0), "byte": ("OP_IO_U8", 1, 0), "u8": ("OP_IO_U8", 1, 0), "int8": ("OP_IO_I8", 1, 1), "i8": ("OP_IO_I8", 1, 1),
     "uint16": ("OP_IO_U16", 2, 0), "u16": ("OP_IO_U16", 2, 0), "int16": ("OP_IO_I16", 2, 1), "i16": ("OP_IO_I16", 2, 1),
     "uint32": ("OP_IO_U32", 4, 0), "u32": ("OP_IO_U32", 4, 0), "int32": ("OP_IO_I32", 4, 1), "i32": ("OP_IO_I32", 4, 1),
     "uint64": ("OP_IO_U64", 8, 0), "u64": ("OP_IO_U64", 8, 0), "int64": ("OP_IO_I64", 8, 1), "i64": ("OP_IO_I64", 8, 1),
     "float": ("OP_IO_F32", 4, 2), "f32": ("OP_IO_F32", 4, 2), "double": ("OP_IO_F64", 8, 2), "f64": ("OP_IO_F64", 8, 2), "bool": ("OP_IO_BOOL", 1, 0)}
OV = {None: "", "be": "@be ", "le": "@le ", "BE": "@big_endian ", "LE": "@little_endian "}


def lit(v):
    """C literal for a 64-bit value."""
    return "0x%xull" % (v & (2 ** 64 - 1))


class Ctx:
    def __init__(self, be=0, prefix="", bits=False, chk="CHECK"):
        self.be, self.prefix, self.bits = be, prefix, bits

    def ov(self, o):
        return Ctx(self.be if not o else int(o.lower() == "be"), self.prefix, self.bits)

    def sub(self, name):
        return Ctx(self.be, self.prefix + name + ".", self.bits)


def var(name):
    return "v_" + name.replace(".", "_")


class N:
    vars = ()

    def decl(self, c):
        return []


class Tr(N):
    """integer transform; op + - * /"""
    def __init__(self, t, name, op, k, ov=None, ktext=None):
        self.t, self.name, self.op, self.k, self.ov = t, name, op, k, ov
        self.src = "%s@%s(%s) %s %s;" % (OV[ov], {"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], ktext or k, t, name)

    def decl(self, c):
        return [c.prefix + self.name]

    def orc(self, c):
        k = c.prefix + self.name
        return '%s = TI("%s", %s, %d, \'%s\', (int64_t)%s);' % (var(k), k, T[self.t][0], c.ov(self.ov).be, self.op, lit(self.k))


class Cv(N):
    """curve transform; kind scale (factor, offset), poly (coefficients), spline (points)"""
    def __init__(self, t, name, kind, ps, ov=None, text=None):
        self.t, self.name, self.kind, self.ps, self.ov = t, name, kind, ps, ov
        if kind == "scale":
            d = "@scale(%s)" % ps[0] + (" @offset(%s)" % ps[1] if len(ps) > 1 else "")
        elif kind == "offset":
            d = "@offset(%s)" % ps[0]
        else:
            d = "@%s(%s)" % (kind, ", ".join(str(x) for x in ps))
        self.src = "%s%s %s %s;" % (OV[ov], text or d, t, name)

    def decl(self, c):
        return [c.prefix + self.name]

    def fns(self):
        a, b = "fw_" + self.name, "bw_" + self.name
        ps = self.ps
        if self.kind in ("scale", "offset"):
            f, o = (ps[0], ps[1] if len(ps) > 1 else 0) if self.kind == "scale" else (1, ps[0])
            return "static double %s(double x) { return x * (double)%s + (double)%s; } static double %s(double y) { return (y - (double)%s) / (double)%s; }\n" % (a, f, o, b, o, f)
        arr = "static const double pt_%s[] = {%s};" % (self.name, ", ".join(str(x) for x in ps))
        if self.kind == "spline":
            n = len(ps) // 2
            return arr + "static double %s(double x) { return o_spline(pt_%s, %d, x); } static double %s(double y) { return o_splinv(pt_%s, %d, y); }\n" % (a, self.name, n, b, self.name, n)
        n = len(ps)
        inv = "o_polyinv(pt_%s, %d, y)" % (self.name, n)
        return arr + "static double %s(double x) { return o_poly(pt_%s, %d, x); } static double %s(double y) { return %s; }\n" % (a, self.name, n, b, inv)

    def orc(self, c):
        k = c.prefix + self.name
        return '%s = TD("%s", %s, %d, fw_%s, bw_%s);' % (var(k), k, T[self.t][0], c.ov(self.ov).be, self.name, self.name)


class Raw(N):
    """schema text with hand-written oracle"""
    def __init__(self, src, orc="", decls=()):
        self.src, self._o, self._d = src, orc, list(decls)

    def orc(self, c):
        return self._o.replace("$BE", str(c.be)).replace("$P", c.prefix)

    def decl(self, c):
        return self._d


class I(N):
    """scalar; post: C condition over `v` (sign-extended int64 / uint64) which must hold, else validation error"""
    def __init__(self, t, name, ov=None, deco="", post=None, opt=False, width=None):
        self.t, self.name, self.ov, self.deco, self.post, self.opt, self.width = t, name, ov, deco, post, opt, width

    @property
    def src(self):
        return "%s%s%s%s %s%s;" % (OV[self.ov], "@optional " if self.opt else "", self.deco + " " if self.deco else "", self.t, self.name, ":%d" % self.width if self.width else "")

    def decl(self, c):
        return [c.prefix + self.name]

    def ctype(self):
        op, n, s = T[self.t]
        return {0: "uint64_t", 1: "int64_t", 2: "uint64_t"}[s]

    def orc(self, c):
        op, n, s = T[self.t]
        k = c.prefix + self.name
        w = self.width or (8 * n if c.bits else None)
        if c.bits and self.t == "bool":
            w = 1
        if w:
            f = "OP_IO_BIT_BOOL" if self.t == "bool" else "OP_IO_BIT_I" if s else "OP_IO_BIT_U"
            e = 'B("%s", %s, %d, %d)' % (k, f, w, c.ov(self.ov).be)
        else:
            e = 'F("%s", %s, %d)' % (k, op, c.ov(self.ov).be)
        r = ("OPT(); " if self.opt else "") + "%s = %s;" % (var(k), e)
        if self.post:
            r += (" if (!O.absent)" if self.opt else "") + " { %s v = (%s)%s; (void)v; CHECK((int)(%s)); }" % (self.ctype(), self.ctype(), var(k), self.post)
        return r


class Opt(N):
    """@optional on another node"""
    def __init__(self, node):
        self.n, self.src = node, "@optional " + node.src
        if isinstance(node, Cv):
            self.fns, self.name = node.fns, node.name

    def decl(self, c):
        return self.n.decl(c)

    def orc(self, c):
        if isinstance(self.n, En):
            e = self.n.orc(c)
            return "OPT(); " + e.replace("CHECK(", "if (!O.absent) CHECK(")
        return "OPT(); " + self.n.orc(c)


class Pad(N):
    def __init__(self, n, t="uint8", name="p"):
        self.n, self.src = n, "@pad(%d);" % n

    def orc(self, c):
        return "PAD(%d, %d);" % (self.n, c.be)


class Fill(N):
    def __init__(self, v=0, t="uint8", name="f", text=None):
        self.v, self.src = v, text or "@fill%s;" % ("" if v is None else "(%d)" % v)

    def orc(self, c):
        return "FILL(%d, %d);" % (self.v or 0, c.be)


class StrZ(N):
    def __init__(self, name, mx=None, text=None, ov=None):
        self.name, self.mx = name, mx
        self.src = "%sstring %s%s;" % (OV[ov], name, text if text is not None else " until 0 max %d" % mx if mx else "")

    def orc(self, c):
        return 'STRZ("%s", %d);' % (c.prefix + self.name, self.mx if self.mx is not None else 255)


class StrP(N):
    def __init__(self, name, pt="uint8", ov=None):
        self.name, self.pt, self.ov = name, pt, ov
        self.src = "%sstring %s prefix %s;" % (OV[ov], name, pt)

    def orc(self, c):
        return 'STRP("%s", %d, %d);' % (c.prefix + self.name, T[self.pt][1], c.ov(self.ov).be)


class Arr(N):
    """elem: a type name, a Struct, or ('string', prefix/None). kind: ('fix', n) ('pre', type) ('ref', field) ('eof',) ('len', n)"""
    def __init__(self, elem, name, kind, ov=None, emax=None, deco="", epost=None):
        self.elem, self.name, self.kind, self.ov, self.emax, self.deco, self.epost = elem, name, kind, ov, emax, deco, epost

    @property
    def src(self):
        en = self.elem if isinstance(self.elem, str) else self.elem[0] if isinstance(self.elem, tuple) else self.elem.name
        k = self.kind
        d, sfx, br = "", "", "[]"
        if k[0] == "fix":
            br = "[%d]" % k[1]
        elif k[0] == "count":
            d = "@count(%d) " % k[1]
        elif k[0] == "len":
            d = "@len(%d) " % k[1]
        elif k[0] == "pre":
            sfx = " prefix %s" % k[1]
        elif k[0] == "ref":
            d = "@%s(%s) " % (k[2] if len(k) > 2 else "count", k[1])
        elif k[0] == "eof":
            d = "@eof "
        if isinstance(self.elem, tuple):
            if self.elem[1]:
                sfx = " prefix " + self.elem[1]
            else:
                sfx = " until 0" + (" max %d" % self.emax if self.emax else "")
        return "%s%s%s%s %s%s%s;" % (OV[self.ov], d, self.deco + " " if self.deco else "", en, self.name, br, sfx)

    def decl(self, c):
        r = [c.prefix + self.name]
        if isinstance(self.elem, Struct):
            r += self.elem.decls(c.sub(self.name))
        return r

    def orc(self, c0):
        c = c0.ov(self.ov)
        k = c.prefix + self.name
        kd = self.kind
        if kd[0] in ("fix", "count", "len"):
            cnt = 'A_FIX("%s", %d)' % (k, kd[1])
        elif kd[0] == "ref":
            cnt = '({ if (!O.st && (uint64_t)%s > 0xFFFFFFFFull) o_fail(E_ARITH); A_FIX("%s", (uint32_t)%s); })' % (var(c.prefix + kd[1]), k, var(c.prefix + kd[1]))
        elif kd[0] == "pre":
            cnt = 'A_PRE("%s", %d, %d)' % (k, T[kd[1]][1], c.be)
        else:
            cnt = None
        if isinstance(self.elem, Struct):
            body = self.elem.inline(c, self.name) + ' o_align();'
        elif isinstance(self.elem, Enum):
            body = En(self.elem, self.name).orc(c)
        elif isinstance(self.elem, tuple):
            body = (StrP(self.name, self.elem[1]) if self.elem[1] else StrZ(self.name, self.emax)).orc(c)
        else:
            op, n, s = T[self.elem]
            body = '%s = F("%s", %s, %d);' % (var(k), k, op, c.be)
            if self.epost:
                body += " { %s v = (%s)%s; CHECK((int)(%s)); }" % (["uint64_t", "int64_t", "uint64_t"][s], ["uint64_t", "int64_t", "uint64_t"][s], var(k), self.epost)
        if cnt is None:
            return '{ A_EOF("%s"); uint32_t c_ = 0; while (!O.st && O.cur < O.n) { %s c_++; } if (!O.st) A_END(c_); }' % (k, body)
        bulk = ""
        if isinstance(self.elem, str) and T[self.elem][1] == 1 and self.elem != "bool" and kd[0] != "eof" and not self.deco:
            bulk = 'if (!A_BULK("%s", c_))' % k
        return "{ uint32_t c_ = %s; %s { for (uint32_t i_ = 0; i_ < c_ && !O.st; i_++) { %s } A_END(c_); } }" % (cnt, bulk, body)


class Struct:
    def __init__(self, name, nodes, pre=""):
        self.name, self.nodes, self.pre = name, nodes, pre
        self.bits = "@unaligned" in pre

    @property
    def src(self):
        return "%sstruct %s { %s }" % (self.pre + " " if self.pre else "", self.name, " ".join(n.src for n in self.nodes))

    def inner(self, c):
        if self.bits:
            c = Ctx(1, c.prefix, True)
        r = " ".join(n.orc(c) for n in self.nodes)
        return r

    def inline(self, c, fname):
        k = c.prefix + fname
        return 'ENTER("%s"); %s EXITS();' % (k, self.inner(c.sub(fname)))

    def decls(self, c):
        return [d for n in self.nodes for d in n.decl(c)]


class St(N):
    def __init__(self, struct, name, ov=None):
        self.s, self.name, self.ov = struct, name, ov
        self.src = "%s%s %s;" % (OV[ov], struct.name, name)

    def decl(self, c):
        return self.s.decls(c.sub(self.name))

    def orc(self, c):
        return self.s.inline(c.ov(self.ov), self.name)


class If(N):
    """conds: list of (schema condition, C condition), bodies one longer for else"""
    def __init__(self, cond, cc, then, els=None):
        self.cond, self.cc, self.then, self.els = cond, cc, then, els

    @property
    def src(self):
        r = "if (%s) { %s }" % (self.cond, " ".join(n.src for n in self.then))
        if self.els is not None:
            if len(self.els) == 1 and isinstance(self.els[0], If):
                r += " else " + self.els[0].src
            else:
                r += " else { %s }" % " ".join(n.src for n in self.els)
        return r

    def decl(self, c):
        return [d for n in self.then + (self.els or []) for d in n.decl(c)]

    def orc(self, c):
        return "if (%s) { %s } else { %s }" % (self.cc.replace("$Pv_", "v_" + c.prefix.replace(".", "_")), " ".join(n.orc(c) for n in self.then), " ".join(n.orc(c) for n in self.els or []))


class Sw(N):
    """cases: [(schema label, value, nodes)]; on: field; bits: width of the discriminator compare"""
    def __init__(self, on, cases, default=None, onc=None):
        self.on, self.cases, self.default, self.onc = on, cases, default, onc

    @property
    def src(self):
        r = "switch (%s) { " % self.on
        for l, v, ns in self.cases:
            r += "case %s: { %s } " % (l, " ".join(n.src for n in ns))
        if self.default is not None:
            r += "default: { %s } " % " ".join(n.src for n in self.default)
        return r + "}"

    def decl(self, c):
        return [d for _, _, ns in self.cases for n in ns for d in n.decl(c)] + [d for n in self.default or [] for d in n.decl(c)]

    def orc(self, c):
        x = self.onc.replace("$Pv_", "v_" + c.prefix.replace(".", "_")) if self.onc else var(c.prefix + self.on)
        r = "{ uint64_t d_ = %s; " % x
        for i, (l, v, ns) in enumerate(self.cases):
            r += "%sif (d_ == %s) { %s } " % ("else " if i else "", lit(v), " ".join(n.orc(c) for n in ns))
        return r + "else { %s } }" % " ".join(n.orc(c) for n in self.default or [])


class Enum:
    """items: [(name, value or None)]"""
    def __init__(self, name, under, items):
        self.name, self.under, self.items = name, under, []
        self._src = items
        v = -1
        for n, x in items:
            v = x if x is not None else v + 1
            self.items.append((n, v))

    def names(self):
        return [n for n, _ in self.items]

    @property
    def src(self):
        return "enum %s%s { %s }" % (self.name, " : " + self.under if self.under else "", ", ".join(n if v is None else "%s = %d" % (n, v) for n, v in self._src))


class En(N):
    def __init__(self, enum, name, ov=None, deco=""):
        self.e, self.name, self.ov, self.deco = enum, name, ov, deco
        self.src = "%s%s%s %s;" % (OV[ov], deco + " " if deco else "", enum.name, name)

    def decl(self, c):
        return [c.prefix + self.name]

    def orc(self, c):
        u = self.e.under or "uint32"
        op, n, s = T[u]
        k = c.prefix + self.name
        return '%s = F("%s", %s, %d); CHECK(%s);' % (var(k), k, op, c.ov(self.ov).be, " || ".join("%s == %s" % (var(k), lit(v)) for _, v in self.e.items))


class Con(N):
    def __init__(self, t, name, text, val, ov=None, kw="const"):
        self.t, self.name, self.val, self.ov = t, name, val, ov
        self.src = "%s@%s(%s) %s %s;" % (OV[ov], kw, text, t, name)

    def orc(self, c):
        op, n, s = T[self.t]
        return 'CONST("%s", %s, %s, %d);' % (c.prefix + self.name, op, lit(self.val), c.ov(self.ov).be)


class Crc(N):
    def __init__(self, width, name, poly=None, init=None, xor=None, refin=False, refout=False, ov=None, t=None):
        """CRC-16 default is unreflected (CCITT), CRC-32 default is reflected (IEEE)"""
        self.w, self.name, self.ov = width, name, ov
        dp, di, dx = (0x1021, 0xFFFF, 0) if width == 16 else (0x04C11DB7, 0xFFFFFFFF, 0xFFFFFFFF)
        self.fl = (refin, refout) if width == 16 else (True, True)
        d = "@crc(%d)" % width
        if poly is not None:
            d += " @crc_poly(0x%X)" % poly
        if init is not None:
            d += " @crc_init(0x%X)" % init
        if xor is not None:
            d += " @crc_xor(0x%X)" % xor
        if refin:
            d += " @crc_refin"
        if refout:
            d += " @crc_refout"
        self.p, self.i, self.x = dp if poly is None else poly, di if init is None else init, dx if xor is None else xor
        self.src = "%s%s uint%d %s;" % (OV[ov], d, width, name)

    def orc(self, c):
        return "CRC(%d, %s, %s, %s, %d, %d, %d);" % (self.w, lit(self.p), lit(self.i), lit(self.x), self.fl[0], self.fl[1], c.ov(self.ov).be)


class Ex(N):
    flt = False

    """computed field; cexpr: C expression giving the value's bits (uint64_t) already converted to the type; err: C condition for an arithmetic error"""
    def __init__(self, t, name, expr, cexpr, ov=None, err=None):
        self.t, self.name, self.c, self.ov, self.err = t, name, cexpr, ov, err
        self.src = "%s@expr(%s) %s %s;" % (OV[ov], expr, t, name)

    def decl(self, c):
        return [c.prefix + self.name]

    def orc(self, c):
        op, n, s = T[self.t]
        k = c.prefix + self.name
        e = self.c.replace("$Pv_", "v_" + c.prefix.replace(".", "_"))
        er = ("if (%s) o_fail(E_ARITH); " % self.err.replace("$Pv_", "v_" + c.prefix.replace(".", "_"))) if self.err else ""
        if self.flt:
            return 'if (!O.st) { %sif (!O.st) { double x_ = %s; %s = DB(x_); EXPRF("%s", %s, x_, %d); } }' % (er, e, var(k), k, op, c.ov(self.ov).be)
        return 'if (!O.st) { %sif (!O.st) { %s = (uint64_t)(%s); EXPR("%s", %s, %s, %d); } }' % (er, var(k), e, k, op, var(k), c.ov(self.ov).be)


def walk(ns):
    for n in ns:
        yield n
        if isinstance(n, If):
            yield from walk(n.then + (n.els or []))
        elif isinstance(n, Sw):
            for c in n.cases:
                yield from walk(c[2])
            yield from walk(n.default or [])
        elif isinstance(n, St):
            yield from walk(n.s.nodes)
        elif isinstance(n, Arr) and isinstance(n.elem, Struct):
            yield from walk(n.elem.nodes)


class Packet:
    def __init__(self, nodes, defs=(), pre="", be=None, name="P", head=""):
        self.nodes, self.defs, self.pre, self.name, self.head = nodes, list(defs), pre, name, head
        self.be = be if be is not None else int("@big_endian" in pre or "@be" in pre)

    @property
    def src(self):
        return "%s%s%spacket %s { %s }" % (self.head + " " if self.head else "", "".join(d.src + " " for d in self.defs), self.pre + " " if self.pre else "", self.name, " ".join(n.src for n in self.nodes))

    def orc(self):
        c = Ctx(self.be)
        ds = []
        for n in self.nodes:
            for d in n.decl(c):
                if d not in ds:
                    ds.append(d)
        decl = "".join("static uint64_t %s; " % var(d) for d in ds)
        reset = "".join("%s = 0; " % var(d) for d in ds)
        fns, seen = "", set()
        for n in walk(self.nodes):
            if (isinstance(n, Cv) or isinstance(n, Opt) and isinstance(n.n, Cv)) and n.name not in seen:
                seen.add(n.name)
                fns += n.fns()
        return decl + "\n" + fns + "static void orc(void) { " + reset + "\n  " + "\n  ".join(n.orc(c) for n in self.nodes) + "\n}\n"


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n\"\n\"").replace("\t", "\\t") + '"'


def text(pkt, pre="", files=()):
    f = "".join('  csx_file(%s, %s, sizeof(%s) - 1);\n' % (cstr(n), cstr(s), cstr(s)) for n, s in files)
    return """%s#include "codec.h"
static const char SRC[] = %s;
%s
void harness(void) {
%s  csx_assert(cd_compile(SRC) == 0, "a valid schema is rejected");
  csx_assert(cd_load() == 0, "the compiled image does not load");
  cd_run((int)csx_param(0), (size_t)csx_pick(csx_param(1), csx_param(2), "size"), (int)csx_param(3), orc);
}
""" % (pre, cstr(pkt.src), pkt.orc(), f)


def jobs(label, pkt, hi, lo=0, modes="ed", raw=0, must=("ok",), defs=(), pre="", files=(), **kw):
    """one job per mode: every buffer size lo..hi, everything else symbolic"""
    r = []
    for m in modes:
        r.append(Job("%s/%s%s" % (label, "enc" if m == "e" else "dec", "/raw" if raw else ""), None, group="comp", params=[0 if m == "e" else 1, lo, hi, raw], text=text(pkt, pre, files), defs=list(defs), must=list(must), **kw))
    return r


def contexts(label, mk, n, defs=(), pres=("", "@big_endian"), which="tsaiwb", rng=1, **kw):
    """The same nodes (mk() gives fresh ones, n bytes at most) at top level, in a struct, an array of structs, a branch, a switch case and after bit fields."""
    r = []
    for pre in pres:
        tag = label + ("-be" if "b" in pre else "")
        A = dict(pre=pre)

        def add(sfx, nodes, size, d=()):
            r.extend(jobs(tag + "/" + sfx, Packet(nodes, list(defs) + list(d), **A), size + 1, lo=max(0, size - rng), **kw))
        if "t" in which:
            add("top", mk() + [I("uint16", "zz")], n + 2)
        if "s" in which:
            S = Struct("S", mk() + [I("uint8", "zs")])
            add("struct", [I("uint16", "q"), St(S, "s"), I("uint16", "zz")], n + 5, [S])
        if "a" in which:
            S = Struct("S", mk())
            add("array", [Arr(S, "s", ("fix", 2)), I("uint16", "zz")], 2 * n + 2, [S])
        if "i" in which:
            add("if", [I("uint8", "q"), If("q > 7", "$Pv_q > 7", mk(), [I("uint8", "el")]), I("uint16", "zz")], n + 3)
        if "w" in which:
            add("switch", [I("uint8", "q"), Sw("q", [("1", 1, [I("uint8", "c1")]), ("5", 5, mk())], [I("uint16", "df")]), I("uint16", "zz")], n + 3)
        if "b" in which:
            add("bits", [I("uint8", "q", width=3)] + mk() + [I("uint8", "w", width=5), I("uint16", "zz")], n + 4)
    return r
