from csxlib import Job
from texts import *
TITLE = "Semantically invalid schemas are always rejected"
BOUNDS = {"quick": "one template per error class and position with all identifiers of 2 or 3 characters and all numbers of 2 digits; every identifier of up to 6 characters as a type; every decorator on every type", "thorough": "three-way templates with concrete case tables"}
H = '#include "semantic.h"\n'
TPL = H + '''int harness(void) { se_build(%s, %d); se_check(%s); return 0; }
'''
TYPE = H + '''int harness(void) { static char w[8]; int n = (int)csx_param(0); csx_bytes(w, n, "type"); for (int i = 0; i < n; i++) csx_assume(i ? se_ident(w[i]) : se_alpha(w[i])); static const char* const T[] = {%s}; if (csx_param(1)) csx_assume(n != 4 || memcmp(w, "byte", 4)); int known = 0; for (size_t i = 0; i < sizeof T / sizeof *T; i++) if (strlen(T[i]) == (size_t)n && !memcmp(w, T[i], n)) known = 1;
  sprintf(csxh_src, %s, n, w); se_check(!known); return 0; }
'''
N = ["\1", "\2", "\3", "\4"]
A, B, C, D = N
n1, n2, n3, n4, n5 = "\21", "\22", "\23", "\24", "\25"
T3 = "EQ(0,1)||EQ(0,2)||EQ(1,2)"
CASES = [  # name, text, condition, concretise
    ("field", "packet P{uint8 %s;uint16 %s;uint8 z;}" % (A, B), "EQ(0,1)", 0),
    ("field3", "packet P{uint8 %s;string %s;float %s[2];}" % (A, B, C), T3, 0),
    ("field-struct", "struct S{bool %s;@be int32 %s:4;}packet P{S s;}" % (A, B), "EQ(0,1)", 0),
    ("field-of-struct", "struct S{uint8 a;}enum E{V}packet P{S %s;E %s;S %s[2];}" % (A, B, C), T3, 0),
    ("field-deco", "packet P{@const(1)uint8 %s;@range(0,1)int8 %s;@expr(1)uint8 %s;}" % (A, B, C), T3, 0),
    ("field-array", "packet P{uint8 %s[]prefix uint8;@count(%s)uint8 %s[];@eof uint8 %s[];}" % (A, A, B, C), T3, 0),
    ("field-first-last", "packet P{uint8 %s;uint8 a;uint8 b;uint8 c;uint8 d;uint8 %s;}" % (A, B), "EQ(0,1)", 0),
    ("field-bits", "@unaligned_bytes struct S{uint8 %s:3;uint8 %s:5;}packet P{S s;}" % (A, B), "EQ(0,1)", 0),
    ("field-if", "packet P{uint8 k;if(k){uint8 %s;uint8 %s;}}" % (A, B), "EQ(0,1)", 0),
    ("field-case", "packet P{uint8 k;switch(k){case 1:{uint8 %s;uint8 %s;}}}" % (A, B), "EQ(0,1)", 0),
    ("field-two-structs", "struct S{uint8 %s;}struct T{uint8 %s;}packet P{S s;T t;uint8 %s;}" % (A, B, C), "0", 0),
    ("struct", "struct %s{uint8 a;}struct %s{uint8 a;}packet P{%s f;}" % (A, B, A), "EQ(0,1)", 0),
    ("struct3", "struct %s{uint8 a;}struct %s{uint8 a;}struct %s{uint8 b;}packet P{uint8 f;}" % (A, B, C), T3, 0),
    ("struct-unaligned", "@unaligned_bytes struct %s{uint8 a:8;}struct %s{uint8 a;}packet P{uint8 f;}" % (A, B), "EQ(0,1)", 0),
    ("enum", "enum %s{V}enum %s:uint8{V}packet P{%s f;}" % (A, B, B), "EQ(0,1)", 0),
    ("struct-enum", "struct %s{uint8 a;}enum %s{V}packet P{uint8 f;}" % (A, B), "EQ(0,1)", 0),
    ("enum-struct", "enum %s{V}struct %s{uint8 a;}packet P{uint8 f;}" % (A, B), "EQ(0,1)", 0),
    ("packet-struct", "struct %s{uint8 a;}packet %s{uint8 a;}" % (A, B), "EQ(0,1)", 0),
    ("packet-enum", "enum %s{V}packet %s{uint8 a;}" % (A, B), "EQ(0,1)", 0),
    ("enumerator", "enum E{%s,%s}packet P{E e;}" % (A, B), "EQ(0,1)", 0),
    ("enumerator3", "enum E:int16{%s=5,%s=7,%s}packet P{E e;}" % (A, B, C), T3, 0),
    ("enumerator-two-enums", "enum E{%s}enum F{%s}packet P{E e;F f;}" % (A, B), "0", 0),
    ("enum-value", "enum E:uint8{A=%s,B=%s}packet P{E e;}" % (n1, n2), "V(0)==V(1)", 0),
    ("enum-value3", "enum E:int8{A=%s,B=-%s,C=%s}packet P{E e;}" % (n1, n2, n3), "V(0)==-V(1)||V(0)==V(2)||-V(1)==V(2)", 0),
    ("enum-next", "enum E:uint8{A=%s,B,C=%s}packet P{E e;}" % (n1, n2), "V(0)==V(1)||V(0)+1==V(1)", 0),
    ("enum-next2", "enum E:int32{A=-%s,B,C,D=-%s,F}packet P{E e;}" % (n1, n2), "V(0)==V(1)||V(0)-1==V(1)||V(0)-2==V(1)||V(0)==V(1)-1", 0),
    ("enum-hex", "enum E:uint16{A=%s,B=0x%s}packet P{E e;}" % (n1, n2), "V(0)==V(1)/10*16+V(1)%10", 0),
    ("type", "struct %s{uint8 a;}packet P{%s f;}" % (A, B), "!EQ(0,1)", 0),
    ("type-array", "struct %s{uint8 a;}packet P{%s f[3];}" % (A, B), "!EQ(0,1)", 0),
    ("type-enum", "enum %s{V}packet P{%s f;}" % (A, B), "!EQ(0,1)", 0),
    ("type-two", "enum %s{V}struct %s{uint8 a;}packet P{%s f;}" % (A, B, C), "EQ(0,1)||(!EQ(0,2)&&!EQ(1,2))", 0),
    ("type-if", "struct %s{uint8 a;}packet P{uint8 k;if(k){%s f;}}" % (A, B), "!EQ(0,1)", 0),
    ("packet=", "struct %s{uint8 a;}packet P=%s;" % (A, B), "!EQ(0,1)", 0),
    ("packet=enum", "enum %s{V}packet P=%s;" % (A, B), "1", 0),
    ("recursion", "struct %s{%s f;}packet P{uint8 a;}" % (A, B), "1", 0),
    ("recursion-array", "struct %s{uint8 n;%s f[2];}packet P{uint8 a;}" % (A, B), "1", 0),
    ("recursion-count", "struct %s{uint8 n;@count(n)%s f[];}packet P{uint8 a;}" % (A, B), "1", 0),
    ("recursion-if", "struct %s{uint8 n;if(n){%s f;}}packet P{uint8 a;}" % (A, B), "1", 0),
    ("recursion-later", "struct %s{uint8 a;}struct %s{%s f;}packet P{%s g;}" % (A, B, C, B), "EQ(0,1)||!EQ(0,2)", 0),
    ("recursion-mutual", "struct %s{%s f;}struct %s{%s f;}packet P{uint8 a;}" % (A, B, B, A), "1", 0),
    ("case", "packet P{uint8 k;switch(k){case %s:uint8 a;case %s:uint8 b;}}" % (n1, n2), "V(0)==V(1)", 0),
    ("case-negative", "packet P{int8 k;switch(k){case -%s:uint8 a;case -%s:uint8 b;case %s:uint8 c;}}" % (n1, n2, n3), "V(0)==V(1)||-V(0)==V(2)||-V(1)==V(2)", 0),
    ("case-hex", "packet P{int8 k;switch(k){case %s:uint8 a;case 0x%s:uint8 b;}}" % (n1, n2), "V(0)==V(1)/10*16+V(1)%10", 0),
    ("case-dense", "packet P{uint8 k;switch(k){case 7:uint8 a;case %s:uint8 b;case 9:uint8 c;case 10:uint8 d;}}" % n1, "V(0)==7||V(0)==9||V(0)==10", 1),
    ("case-enum", "enum E:uint8{A=%s,B=%s}packet P{E e;switch(e){case E.A:uint8 a;case E.B:uint8 b;case E.A:uint8 c;}}" % (n1, n2), "1", 0),
    ("case-enum-number", "enum E:uint8{A=%s}packet P{E e;switch(e){case E.A:uint8 a;case %s:uint8 b;}}" % (n1, n2), "V(0)==V(1)", 0),
    ("case-enumerator", "enum E{%s,Z}packet P{E e;switch(e){case E.%s:uint8 a;}}" % (A, B), "!EQ(0,1)", 0),
    ("case-enum-name", "enum %s{Z}packet P{uint8 e;switch(e){case %s.Z:uint8 a;}}" % (A, B), "!EQ(0,1)", 0),
    ("case-nested", "packet P{uint8 k;switch(k){case %s:switch(k){case %s:uint8 a;}case %s:uint8 b;}}" % (n1, n2, n3), "V(0)==V(2)", 0),
    ("case-default", "packet P{uint8 k;switch(k){default:uint8 a;case %s:uint8 b;default:uint8 c;}}" % n1, "1", 0),
    ("unaligned", "@unaligned_bytes struct S{uint64 a:%s;}packet P{S s;}" % n1, "V(0)==0||V(0)>64||V(0)%8", 0),
    ("unaligned2", "@unaligned_bytes struct S{uint64 a:%s;int64 b:%s;}packet P{S s;}" % (n1, n2), "V(0)<1||V(0)>64||V(1)<1||V(1)>64||(V(0)+V(1))%8", 0),
    ("unaligned-pad", "@unaligned_bytes struct S{uint64 a:%s;@pad(%s);}packet P{S s;}" % (n1, n2), "V(0)<1||V(0)>64||(V(0)+V(1))%8", 0),
    ("unaligned-mixed", "@unaligned_bytes struct S{uint8 a;uint64 b:%s;bool c;int16 d;}packet P{S s;}" % n1, "V(0)<1||V(0)>64||(V(0)+25)%8", 0),
    ("unaligned-fill", "@unaligned_bytes struct S{uint64 a:%s;@fill;}packet P{S s;}" % n1, "V(0)<1||V(0)>64", 0),
    ("unaligned-fill-more", "@unaligned_bytes struct S{uint64 a:%s;@fill;uint8 b:%s;}packet P{S s;}" % (n1, n2), "V(0)<1||V(0)>64||V(1)<1||V(1)>64||V(1)%8", 0),
    ("unaligned-unused", "@unaligned_bytes struct S{uint64 a:%s;}packet P{uint8 s;}" % n1, "V(0)<1||V(0)>64||V(0)%8", 0),
    ("unaligned-two", "@unaligned_bytes struct S{uint64 a:%s;}@unaligned_bytes struct T{uint64 b:%s;}packet P{S s;T t;}" % (n1, n2), "V(0)<1||V(0)>64||V(1)<1||V(1)>64||V(0)%8||V(1)%8", 0),
    ("unaligned-then-plain", "@unaligned_bytes struct S{uint64 a:8;}struct T{uint64 b:%s;}packet P{S s;T t;}" % n1, "V(0)<1||V(0)>64", 0),
    ("range", "packet P{@range(%s,%s)uint8 a;}" % (n1, n2), "V(0)>V(1)", 0),
    ("range-neg", "packet P{@range(-%s,-%s)int32 a;}" % (n1, n2), "V(0)<V(1)", 0),
    ("range-mixed", "packet P{@range(%s,-%s)int64 a;}" % (n1, n2), "V(0)>-V(1)", 0),
    ("range-float", "packet P{@range(%s.5,%s)double a;}" % (n1, n2), "V(0)*2+1>V(1)*2", 1),
    ("string-array", "packet P{string a[%s];}" % n1, "1", 0),
    ("string-array-max", "packet P{string a[%s] max %s;}" % (n1, n2), "1", 0),
    ("string-array-count", "packet P{uint8 n;@count(%s)string a[];}" % A, "1", 0),
    ("string-array-open", "packet P{string %s[];}" % A, "1", 0),
    ("string-array-eof", "packet P{@eof string %s[];}" % A, "1", 0),
    ("open-array", "packet P{uint8 %s[];}" % A, "1", 0),
    ("no-packet", "struct %s{uint8 a;}enum %s{V}" % (A, B), "1", 0),
    ("two-packets", "packet %s{uint8 a;}packet %s{uint8 b;}" % (A, B), "1", 0),
    ("two-packets-apart", "packet %s{uint8 a;}struct S{uint8 a;}packet %s=S;" % (A, B), "1", 0),
    ("const-8", "packet P{@const(2%s)uint8 a;}" % n1, "V(0)>55", 0),
    ("const-i8", "packet P{@const(-1%s)int8 a;}" % n1, "V(0)>28", 0),
    ("const-16", "packet P{@match(655%s)uint16 a;}" % n1, "V(0)>35", 0),
    ("range-out", "packet P{@range(0,1%s)int8 a;}" % n1, "V(0)>27", 0),
    ("enum-out", "enum E:int8{A=1%s}packet P{E e;}" % n1, "V(0)>27", 0),
    ("enum-out-next", "enum E:uint8{A=2%s,B,C}packet P{E e;}" % n1, "V(0)>53", 0),
    ("decorator", "packet P{@%s(%s)uint8 a;}" % (A, n1), "1", 0),
    ("decorator-bare", "packet P{@%s uint8 a;}" % A, "1", 0),
    ("enum-type", "enum E:%s{V}packet P{E e;}" % A, "1", 0),
    ("prefix-type", "packet P{uint8 a[]prefix %s;}" % A, "1", 0),
    ("crc-width", "packet P{uint8 k;@crc(%s)uint16 a;}" % n1, "V(0)!=16", 0),
    ("crc-width32", "packet P{uint8 k;@crc(%s)uint32 a;}" % n1, "V(0)!=32", 0),
    ("bool-width", "packet P{bool a:%s;}" % n1, "V(0)!=1", 0),
    ("spline-odd", "packet P{@spline(0,1,%s)uint8 a;}" % n1, "1", 0),
    ("self", "packet P{uint8 %s;uint8 self;}" % A, "1", 0),
]
# decorator x type: the combinations which are not allowed
DECO = {"scale": "@scale(%s)" % n1, "offset": "@offset(%s)" % n1, "poly": "@poly(1,%s)" % n1, "spline": "@spline(0,0,1,%s)" % n1, "add": "@add(%s)" % n1, "sub": "@sub(%s)" % n1, "mul": "@mul(%s)" % n1, "div": "@div(1%s)" % n1, "const": "@const(%s)" % n1, "match": "@match(%s)" % n1, "range": "@range(0,%s)" % n1, "crc16": "@crc(16)", "crc32": "@crc(32)", "count": "@count(%s)" % n1, "eof": "@eof ", "expr": "@expr(%s)" % n1, "optional": "@optional ", "be": "@be "}
TYPES = {"string": "string %s;" % A, "bool": "bool %s;" % A, "struct": "S %s;" % A, "enum": "E %s;" % A, "bits": "uint16 %s:5;" % A, "ibits": "int16 %s:5;" % A, "bbits": "bool %s:1;" % A, "float": "float %s;" % A, "double": "double %s;" % A, "uint8": "uint8 %s;" % A, "int8": "int8 %s;" % A, "uint16": "uint16 %s;" % A, "uint32": "uint32 %s;" % A, "int32": "int32 %s;" % A, "uint64": "uint64 %s;" % A, "array": "uint16 %s[2];" % A, "array32": "uint32 %s[2];" % A, "string-prefix": "string %s prefix uint8;" % A, "struct-array": "S %s[2];" % A, "varray": "uint8 %s[]prefix uint8;" % A}
TRANS = {"scale", "offset", "poly", "spline", "add", "sub", "mul", "div"}
INTS = {"uint8", "int8", "uint16", "uint32", "int32", "uint64"}
NOTTRANS = {"string", "bool", "struct", "enum", "bits", "ibits", "bbits", "string-prefix", "struct-array"}


def allowed(d, t):
    """True / False where the language is definite, None where this check does not say"""
    if d in TRANS:
        return False if t in NOTTRANS else None if t in ("float", "double") else True
    if d in ("const", "match"):
        return t in INTS if t not in ("array", "array32", "varray") else None
    if d == "range":
        return False if t in ("string", "bool", "struct", "string-prefix", "struct-array", "bits", "ibits", "bbits") else None if t == "enum" else True
    if d == "crc16":
        return t == "uint16"
    if d == "crc32":
        return t == "uint32"
    if d in ("count", "eof"):
        return None if t in ("array", "array32", "struct-array", "varray") else False
    if d == "expr":
        return t in INTS or t in ("float", "double", "bool")
    if d == "optional":
        return False if t in ("struct", "array", "array32", "struct-array") else None if t in ("bits", "ibits", "bbits") else True
    return True


def make(tier, seed):
    q = tier == "quick"
    out = []
    for nm, t, cond, conc in CASES:
        out.append(Job(nm, None, group="comp", text=TPL % (cq(t), conc, cond), time=400, weight=4 if "three" in nm or "3" in nm else 2, must=(["wrong"] if cond != "0" else []) + (["right"] if cond != "1" else [])))
    for d, dt in DECO.items():
        for t, tt in TYPES.items():
            a = allowed(d, t)
            if a is None:
                continue
            out.append(Job("deco-%s-%s" % (d, t), None, group="comp", text=TPL % (cq("struct S{uint8 v;}enum E:uint8{V}packet P{uint8 z;%s%s}" % (dt, tt)), 0, "0" if a else "1"), time=300, must=["right" if a else "wrong"]))
    tn = ["uint8", "byte", "u8", "uint16", "u16", "uint32", "u32", "uint64", "u64", "int8", "i8", "int16", "i16", "int32", "i32", "int64", "i64", "float", "f32", "double", "f64", "bool", "string"]
    for n in range(1, 7 if q else 8):
        out.append(Job("typename%d" % n, None, group="comp", text=TYPE % (", ".join(map(cq, tn)), cq("packet P{%.*s f;}")), params=[n], time=400, weight=5))
        out.append(Job("basename%d" % n, None, group="comp", text=TYPE % (", ".join(cq(x) for x in tn if x not in ("float", "f32", "double", "f64", "bool", "string")), cq("enum E:%.*s{A,B}packet P{E e;}")), params=[n, 1], time=400, weight=5))
        out.append(Job("prefixname%d" % n, None, group="comp", text=TYPE % (", ".join(cq(x) for x in ("uint8", "byte", "u8", "uint16", "u16", "uint32", "u32")), cq("packet P{uint8 f[]prefix %.*s;}")), params=[n, 1], time=400, weight=5))
    return out
