from csxlib import Job
TITLE = "Formatting preserves meaning and is stable"
BOUNDS = {"quick": "all texts of up to 3 arbitrary bytes; texts of 5 bytes over the characters that matter to layout; 2 arbitrary bytes at every position of schema templates; formatted and original schema compiled and compared with 1 arbitrary byte at every token boundary", "thorough": "4 arbitrary bytes, 7 bytes over the layout characters, 3 arbitrary bytes in the templates"}
H = '#include "format.h"\n'
ANY = H + '''int harness(void) { int n = (int)csx_param(0); csx_bytes(csxh_src, n, "text"); fm_check(csxh_src); return 0; }
'''
SET = H + '''int harness(void) { int n = (int)csx_param(0); csx_bytes(csxh_src, n, "text"); for (int i = 0; i < n; i++) { char c = csxh_src[i]; csx_assume(%s); } fm_check(csxh_src); return 0; }
'''
WIN = H + '''static const char T[] = %s;
int harness(void) { int n = (int)csx_param(0); size_t at = csx_pick(csx_param(1), csx_param(2), "position"); strcpy(csxh_src, T); memcpy(csxh_src, T, at); csx_bytes(csxh_src + at, n, "bytes"); for (int i = 0; i < n; i++) csx_assume(csxh_src[at + i] != 0); strcpy(csxh_src + at + n, T + at); fm_check(csxh_src); return 0; }
'''
COMP = '#include "codec.h"\n' + H + '''static const char T[] = %s; static uint8_t csxh_a[600], csxh_b[600]; static const uint16_t BD[] = {%s};
static int comp(const char* s, uint8_t* out, size_t* n) { csx_file("f.cnd", s, strlen(s)); csx_file("f.il", "", 0); int rc = cnd_compile_file("f.cnd", "f.il", 0, 0); *n = csx_file_get("f.il", out, 600); return rc; }
int harness(void) { size_t at = BD[csx_pick(csx_param(0), csx_param(1), "position")]; memcpy(csxh_src, T, at); csxh_src[at] = csx_u8("byte"); csx_assume(csxh_src[at] != 0); strcpy(csxh_src + at + 1, T + at); csx_capture(1);
  char* f = cnd_format_source(csxh_src); size_t na = 0, nb = 0; int a = comp(csxh_src, csxh_a, &na), b = comp(f, csxh_b, &nb);
  csx_assert(!a == !b, "formatting changes whether a schema compiles"); csx_reach(a ? "rejected" : "compiled"); csx_note("rc", a);
  if (!a) { csx_assert(na == nb && !memcmp(csxh_a, csxh_b, na), "formatting changes what a schema means"); } return 0; }
'''
TPL = ['@version(1)\nenum E:uint8{A=1,B=-2,C}\nstruct S{uint8 a;// one\n  @be int16 b : 3;/* two { ; */}\n\n\n/// doc\npacket P {S s;@count(s.a) uint8 d[]; if(s.a>=3&&s.b!=-1){float f;}else{string t until 0 max 5;}}',
       'packet P{uint8 k;switch(k){case 1:uint8 a;default:{uint16 b[2];}}\n  @expr(k*2+-1) uint32 e; }',
       '/* a "b */ @import("x  y//z.cnd") packet P { } // end']


def cq(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def bounds(s):
    import re
    out, i = [], 0
    for m in re.finditer(r'//[^\n]*\n|/\*.*?\*/|"[^"]*"|[A-Za-z_]\w*|-?\d+|[<>=!&|]{1,2}|\s+|.', s, re.S):
        out.append(m.start())
    return out + [len(s)]


def make(tier, seed):
    q = tier == "quick"
    out = [Job("any%d" % n, None, group="comp", text=ANY, params=[n], time=500, must=["formatted"], weight=n) for n in range(0, 5 if q else 6)]
    sets = {"layout": " \\n{};,/*a", "comment": "/*\\n\\\" a", "tokens": "-<=1a. {", "quotes": "\\\"/*;} \\r"}
    for k, s in sets.items():
        cs = [c for c in eval('"%s"' % s)]
        t = SET % " || ".join("c == %d" % ord(c) for c in cs)
        out.append(Job("set-%s" % k, None, group="comp", text=t, params=[4 if q else 6], time=500, must=["formatted"], weight=6))
        if q:
            out.append(Job("set5-%s" % k, None, group="comp", text=t, params=[5], time=500, must=["formatted"], weight=7))
    for i, t in enumerate(TPL):
        step = 12
        for a in range(0, len(t) + 1, step):
            out.append(Job("window%d@%d" % (i, a), None, group="comp", text=WIN % cq(t), params=[2 if q else 3, a, min(a + step - 1, len(t))], time=500, must=["formatted"], weight=4))
    CT = ['enum E:uint8{A=1,B=2}struct S{uint8 a;@be int16 b;}packet P{S s;E e;@count(s.a)uint8 d[];if(s.a>=3&&s.b!=-1){float f;}else{string t until 0 max 5;}}',
          TPL[1]]
    for i, t in enumerate(CT):
        b = bounds(t)
        for a in range(0, len(b), 6):
            out.append(Job("compile%d@%d" % (i, a), None, group="comp", text=COMP % (cq(t), ", ".join(map(str, b))), params=[a, min(a + 5, len(b) - 1)], time=500, weight=5))
    return out
