from csxlib import Job
from texts import *
import re
TITLE = "Layout and comments never change what a schema means"
BOUNDS = {"quick": "12 schema texts which use every construct, and the shipped example schemas: at every token boundary, a layout string of 3 arbitrary blank characters, a line comment with 4 arbitrary bytes, a block comment with 5 arbitrary bytes (examples: 1, 3, 3); the same blank string at all boundaries at once; 37 invalid schemas: the line of the diagnostic, in text and JSON form, with the same layout strings inserted at every boundary outside the erroneous statement", "thorough": "one byte more in each layout string"}
H = '#include "layout.h"\n'
EQ = H + '''static const char T[] = %s; static const uint16_t A[] = {%s};
int harness(void) { %s ly_base(T); size_t k = csx_param(0) == 999 ? (size_t)-1 : csx_pick(csx_param(0), csx_param(1), "token"); ly_make((int)csx_param(2), (int)csx_param(3)); ly_same(T, A, k, 0); return 0; }
'''
DIAG = H + '''static const char T[] = %s; static const uint16_t A[] = {%s}; static const uint8_t BEF[] = {%s};
int harness(void) { size_t k = csx_pick(csx_param(0), csx_param(1), "token"); ly_make((int)csx_param(2), (int)csx_param(3)); ly_diag(T, A[k], BEF[k], %d, (int)(k + csx_param(4)) & 1); return 0; }
'''
# the erroneous statement stands between < > marks
ERRS = ["struct A{|uint8 a;|§uint8 a;§|}packet P{A a;}", "struct A{uint8 a;}|§struct A{§uint8 b;}|packet P{A a;}", "enum E{A,B}|§enum E{§A}|packet P{E a;}", "enum A{A,B}|§struct A{§uint8 a;}|packet P{A a;}", "packet P{|uint8 c;|§foo x;§|uint8 b;}", "packet P{|uint8 a;|uint8 b;|§uint8 a;§|uint8 c;}",
        "packet P{|§@range(9,1)uint8 a;§|uint8 b;}", "packet P{|§@crc(8)uint8 a;§|uint8 b;}", "packet P{|§@bogus(1)uint8 a;§|uint8 b;}", "packet P{|§string a[];§|uint8 b;}", "packet P{uint8 a:3;|§@fill(2);§|uint8 b;}", "enum E:uint8{|B,|§A=256,§|C}packet P{E e;}", "enum E{|B,|§A=4294967296,§|C}packet P{E e;}", "enum E{|A,|§A,§|C}packet P{E e;}", "enum E{|A=1,|§B=1,§|C}packet P{E e;}",
        "packet P{uint8 a;|switch(a){|case 1:uint8 b;|§case 1:uint8 c;§|default:uint8 d;}}", "packet P{uint8 x;|§uint8 a:0;§|uint8 b;}", "packet P{uint8 x;|§uint8 self;§|uint8 b;}", "packet P{uint8 x;|§@const(300)uint8 a;§|uint8 b;}", "packet P{uint8 x;|§@crc(32)uint16 a;§|uint8 b;}", "/// doc\n|§@unaligned_bytes struct B{§|uint8 a:3;|}|packet P{B b;}", "struct A{uint8 a;}|struct R{|§R r;§|uint8 a;}packet P{R r;}",
        "packet P{|uint8 a|§}§", "packet P{uint8 a;|§$§|uint8 b;}", "packet P{uint8 a;}|§packet Q{§uint8 b;}", "struct S{uint8 a;}|§packet P=Z;§|enum E{A}", "enum E{A}|§import§|packet P{uint8 a;}", "packet P{uint8 x;|§@scale(2)bool a;§|uint8 b;}", "packet P{uint8 x;|§uint8 a[] prefix float;§|uint8 b;}", "packet P{uint8 x;|§@expr(1.5%2)float a;§|uint8 b;}", "enum E{A}|§@import(\"nofile\")§|packet P{uint8 a;}", "packet P{uint8 x;|§@count(1)uint8 a;§|uint8 b;}", "packet P{uint8 x;|§@const(1)@expr(2)uint8 a;§|uint8 b;}", "packet P{uint8 x;|§@optional @const(1)uint8 a;§|uint8 b;}",
        "packet P{uint8 x;|§if(1.5&2){§uint8 y;}|uint8 b;}", "enum E{A}packet P{E x;|switch(x){|§case E.Z:uint8 y;§|}uint8 b;}", "packet P{|uint8 a[2];|§@import(\"z\")uint8 b;§}"]


def make(tier, seed):
    q = tier == "quick"
    out = []
    kinds = [(0, 3, "blank"), (1, 4, "line"), (2, 5, "block"), (3, 4, "tight")]
    for nm, t in ALL:
        t = t.rstrip("\n") + "\n"
        tk = tokens(t)
        A = ", ".join(str(x[0]) for x in tk) + ", %d, 65535" % len(t)
        for kd, n, kn in kinds:
            at = [x[0] for x in tk if kd != 3 or t[x[0] - 1] != "/"] + [len(t)]
            for lo in range(0, len(at), 40):
                out.append(Job("%s@%d-%s" % (nm, lo, kn), None, group="comp", text=EQ % (cq(t), ", ".join(map(str, at)), ""), params=[lo, min(lo + 39, len(at) - 1), kd, n + (not q)], time=400, must=["compiled"], weight=3))
        out.append(Job("%s-all" % nm, None, group="comp", text=EQ % (cq(t), A, ""), params=[999, 0, 0, 2 + (not q)], time=400, must=["compiled"], weight=2))
        out.append(Job("%s-allblock" % nm, None, group="comp", text=EQ % (cq(t), A, ""), params=[999, 0, 2, 1 + (not q)], time=400, must=["compiled"], weight=2))
    for path, name, t, files in examples():
        t = t.rstrip("\n") + "\n"
        tk = tokens(t)
        if len(t) > 5000:
            continue
        txt = EQ % (cq(t), ", ".join(str(x[0]) for x in tk) + ", %d, 65535" % len(t), "")
        txt = "#define FILES " + files_def(files) + "\n" + txt.replace('"t.cnd"', cq(name))
        for kd, n, kn in kinds[:3]:
            out.append(Job("%s-%s" % (path.replace("/", "_"), kn), None, group="comp", text=txt, params=[0, len(tk), kd, (1 if kd == 0 else 3) + (not q)], time=400, must=["compiled"], weight=4))
    for i, e in enumerate(ERRS):
        e = e.replace("|", "\n")
        a, b = e.index("§"), e.rindex("§") - 1
        t = e.replace("§", "") + "\n"
        line = t[:a].count("\n") + 1
        pts = [x[0] for x in tokens(t) if x[0] <= a or x[0] >= b]
        if len(t) not in pts:
            pts.append(len(t))
        for kd, n, kn in kinds:
            out.append(Job("error%d-%s" % (i, kn), None, group="comp", text=DIAG % (cq(t), ", ".join(map(str, pts)), ", ".join("1" if x <= a else "0" for x in pts), line), params=[0, len(pts) - 1, kd, n - 1 + (not q), kd & 1], time=400, must=["rejected"], weight=1))
    return out
