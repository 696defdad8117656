"""Schema texts which together use every construct of the language, and the example schemas shipped with the repository."""
import os, glob, re
from csxlib import REPO

ALL = [
    ("plain", 'packet P{uint8 a;int16 b;bool c;float d;double e;@be uint32 f;@le int64 g;}'),
    ("decorated", '@version(3)@big_endian packet P{@const(7)uint8 a;@match(0x12)uint16 m;@range(-5,9)int8 b;@range(1.5,2.5)float c;@scale(0.5)@offset(-2)uint8 d;@poly(1,2,0.5)uint16 e;@spline(0,0,10,100)uint8 g;@add(3)uint8 h;@mul(2)int16 i;@optional uint8 z;}'),
    ("strings", 'packet P{string a;string b max 9;string c until 0 max 4;string d prefix uint8;string e prefix uint16;string f[2] prefix uint8;}'),
    ("arrays", 'packet P{uint8 n;uint8 a[3];uint16 b[]prefix uint8;@count(n)int32 c[];@count(n)string s[]prefix uint8;@eof uint8 r[];}'),
    ("bits", '@unaligned_bytes struct B{uint8 a:3;int8 b:4;bool f;}packet P{B b;uint8 x:5;@fill uint16 y:12;@fill(1)@pad(3)uint8 z;}'.replace("@fill uint16", "@fill;uint16").replace("@fill(1)@pad(3)uint8", "@fill(1);@pad(3);uint8")),
    ("structs", 'struct V{float x;float y;}struct W{V v;V w[2];uint8 k;}packet P{W a;W b[]prefix uint8;V c;@expr(a.v.x>c.x)bool g;}'),
    ("enums", 'enum E:uint8{A=1,B,C=9}enum F:int16{X=-3,Y}packet P{E e;F f;E g[2];switch(e){case E.A:uint8 x;case E.B:{uint16 y;}default:uint32 w;}}'),
    ("control", 'packet P{uint8 k;if(k>3&&k!=7){uint8 a;}else if(k==1||!k){uint8 b;}else{uint16 c;}switch(k){case 1:uint8 d;case 2:{uint8 e;}case 3:uint8 f;case 4:{switch(k){case 9:uint8 g;}}default:{uint8 h;}}}'),
    ("exprs", 'packet P{uint8 a;uint16 b;@expr((a+b*2-1)/3%5)uint32 c;@expr(~a&0xF|b<<2^b>>1)uint32 d;@expr(sqrt(float(a))*2.5+abs(-1.0))float e;@expr(int(e)>=4||a<b&&true)bool f;}'),
    ("crc", 'packet P{uint16 a;@crc(16)uint16 c;@crc_init(0xFFFF)@crc_poly(0x1021)@crc(16)uint16 d;@crc(32)uint32 e;}'),
    ("packet=", 'struct S{uint8 a;}packet P=S;'),
    ("comments", '// c\n/* d */enum E:uint8{/// one\nA=1,B}\n/// doc\nstruct S{/// f\nuint8 a;}packet P{S s;/* x\n*/E e;// end\n}'),
]


def examples():
    out = []
    for root in ("examples", "demos"):
        for f in sorted(glob.glob(REPO + "/" + root + "/**/*.cnd", recursive=True)):
            s = open(f).read()
            if "packet" not in re.sub(r"//[^\n]*|/\*.*?\*/", "", s, flags=re.S):
                continue
            if f.endswith("arrays/array_pre.cnd"):   # written in a syntax the language does not have (type[] name)
                continue
            files = []
            todo = [(f, s)]
            seen = {f}
            while todo:
                g, t = todo.pop()
                for m in re.findall(r'@import\(\s*"([^"]*)"', t):
                    h = os.path.normpath(os.path.join(os.path.dirname(g), m))
                    if h not in seen and os.path.exists(h):
                        seen.add(h)
                        todo.append((h, open(h).read()))
                        files.append((h, open(h).read()))
            base = os.path.commonpath([os.path.dirname(x) for x in seen])
            out.append((os.path.relpath(f, REPO), os.path.relpath(f, base), s, [(os.path.relpath(a, base), b) for a, b in files]))
    return out


def cq(s):
    o = []
    for b in s.encode():
        c = chr(b)
        o.append("\\" + c if c in '"\\' else "\\n" if c == "\n" else "\\t" if c == "\t" else "\\r" if c == "\r" else c if 32 <= b < 127 and c != "?" else "\\%03o" % b)
    return '"' + "".join(o) + '"'


def tokens(s):
    """(start, end) of every token"""
    return [m.span() for m in re.finditer(r'//[^\n]*(?=\n|$)|/\*.*?\*/|"[^"]*"|[A-Za-z_]\w*|-?0[xX][0-9a-fA-F]+|-?\d+(?:\.\d+)?|[=!<>]=|<<|>>|&&|\|\||\S', s, re.S)]


def files_def(files):
    return "".join("csx_file(%s, %s, %d); " % (cq(a), cq(b), len(b.encode())) for a, b in files)
