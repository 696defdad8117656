from csxlib import Job
from texts import *
from corpus import corpus
import gen
TITLE = "Every successfully compiled schema yields a well-formed, verifiable image"
BOUNDS = {"quick": "schema texts using every construct, the shipped examples, and a corpus of every field kind in both byte orders; templates in which names are 1-2 arbitrary identifier characters each and counts, widths, labels and values are arbitrary digits", "thorough": "3-character names, larger tables"}
H = '#include "source.h"\n'
PLAIN = H + '''static const char T[] = %s;
int harness(void) { strcpy(csxh_src, T); csx_capture(1); %s int rc = so_compile(csxh_src, %s, (int)csx_param(0)); csx_assert(rc == 0, "a valid schema is rejected"); csx_assert(csxh_in > 0 && csxh_in <= sizeof csxh_img, "a successful compilation writes no image"); so_image(csxh_img, csxh_in); csx_reach("compiled"); return 0; }
'''
HOLES = H + '''static const char T[] = %s;
int harness(void) { strcpy(csxh_src, T); for (char* c = csxh_src; *c; c++) {
    if (*c == '$') { *c = (char)csx_u8("name"); csx_assume((*c >= 'a' && *c <= 'd') || *c == '_' || (*c >= 'X' && *c <= 'Z')); }
    else if (*c == '?') { *c = (char)csx_u8("name"); csx_assume((*c >= 'a' && *c <= 'c') || (*c >= '0' && *c <= '2')); }
    else if (*c == '#') { *c = (char)csx_u8("digit"); csx_assume(*c >= '0' && *c <= '9'); }
    else if (*c == '^') { uint8_t v = csx_u8("digit"); csx_assume(v >= '0' && v <= '4'); *c = (char)csx_concrete(v); } }
  so_any(csxh_src, 0); return 0; }
'''
TPL = [
    ("fields", "packet P{uint8 $?;uint16 $;string $;}", 1),
    ("structs", "struct S{uint8 $;uint8 x;}packet P{S $;uint8 x;S $;}", 1),
    ("nested", "struct S{uint8 $;}struct R{S $;S y;}packet P{R $;R y;uint8 $;}", 1),
    ("types", "struct $?{uint8 a;}enum $?:uint8{a=1}packet $?{uint8 a;}", 1),
    ("enumerators", "enum E:uint8{$,$=#,$=2}packet P{E e;switch(e){case E.$:uint8 x;}}", 1),
    ("labels", "packet P{uint8 k;switch(k){case ^:uint8 a;case 1^:{uint8 b;}case ^:uint16 a2;case 7:uint8 d;default:uint8 e;}}", 1),
    ("dense", "packet P{uint8 k;switch(k){case 1:uint8 a;case ^:uint8 b;case 3:uint8 c;case 2^:uint8 d;}uint8 z;}", 1),
    ("counts", "packet P{uint8 n;uint8 a[#];uint16 b[1#];@count($)uint8 c[];string s max #;}", 1),
    ("widths", "@unaligned_bytes struct B{uint8 a:#;int16 b:1#;}packet P{B b;uint32 w:#;@fill;@pad(#);uint8 z;}", 1),
    ("values", "@version(#)packet P{@const(2##)uint8 a;@range(-1##,1##)int8 b;@add(-#)uint8 c;@expr(#*a+$)uint8 d;}", 1),
    ("conditions", "packet P{uint8 a;uint8 b;if($>#){uint8 c;}else if($==a){uint8 d;}else{string $;}}", 1),
]


def make(tier, seed):
    q = tier == "quick"
    out = []
    for n, t in ALL:
        for j in (0, 1):
            out.append(Job("%s/%d" % (n, j), None, group="comp", text=PLAIN % (cq(t), "", '"t.cnd"'), params=[j], must=["compiled"]))
    for n, f, s, fs in examples():
        out.append(Job(n, None, group="comp", text=PLAIN % (cq(s), files_def(fs), cq(f)), must=["compiled"]))
    for nm, p, _ in corpus(q):
        for pre in ("", "@big_endian ") if not p.pre else (p.pre + " ",):
            p.pre = pre.strip()
            t = p.src
            out.append(Job("corpus-%s%s" % (nm, pre[:3]), None, group="comp", text=PLAIN % (cq(t), "", '"t.cnd"'), must=["compiled"]))
    for n, t, w in TPL:
        out.append(Job("holes-%s" % n, None, group="comp", text=HOLES % cq(t), time=600, weight=5, must=["compiled", "rejected"] if n != "counts" else ["compiled"]))
    return out
