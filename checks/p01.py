from csxlib import Job
TITLE = "No byte-code, message or host answer makes the VM touch memory outside the program, the message and its context"
BOUNDS = {"quick": "one instruction of every opcode from any machine state (messages up to 5-9 bytes, loop depth 0/1/7/8, stack depth 0-8, all operand bytes, every truncation), plus 3-byte programs with all bytes free", "thorough": "longer messages and programs"}
T = '#include "step.h"\nint harness(void) { int lo = csx_param(0), hi = csx_param(1); int op = (int)csx_concrete(csx_pick(lo, hi, "opcode")); st_run(op, (int)csx_param(2), (int)(int64_t)csx_param(3), (int)csx_param(4), (int)(csx_param(5) & 1), (int)(csx_param(5) >> 1 & 1), (int)(csx_param(5) >> 2)); return 0; }\n'


def make(tier, seed):
    q = tier == "quick"
    out = []
    LOOP, STACK = 1, 2

    def j(label, lo, hi, nop, tail=0, fl=0, msg=9, modes="ed", must=("end",), at=0, byte=0, k=0, **kw):
        for m in modes:
            out.append(Job("%s/%s" % (label, "enc" if m == "e" else "dec"), None, group="vm", params=[lo, hi, 0 if m == "e" else 1, nop, tail, fl, msg, at, byte, k], text=T, must=list(must), time=200, **kw))
    n = q and 9 or 12
    j("state", 0x00, 0x02, 0, msg=2)
    for op, k in ((0x03, 2), (0x04, 0), (0x05, 1), (0x06, 0), (0x07, 2)):
        j("op%02x" % op, op, op, k, msg=2)
    j("undefined08-0F", 0x08, 0x0F, 0, msg=2)
    for op in range(0x10, 0x1B):
        j("io%02x" % op, op, op, 2, msg=n)
    j("undefined1B-1F", 0x1B, 0x1F, 0, msg=2)
    for op in (0x20, 0x21):
        j("bits%02x" % op, op, op, 3, msg=9 if not q else 3)
        j("bits%02x-9" % op, op, op, 3, msg=109)
    j("bitbool", 0x22, 0x22, 2, msg=3)
    j("pad", 0x23, 0x24, 1, msg=3)
    j("undefined25-2F", 0x25, 0x2F, 0, msg=2)
    for op, k in ((0x30, 4), (0x31, 2), (0x32, 2), (0x33, 2)):
        j("str%02x" % op, op, op, k, msg=6 if q else 8)
    for op, k in ((0x34, 6), (0x35, 2), (0x36, 2), (0x37, 2), (0x39, 6), (0x3A, 2), (0x3B, 4)):
        j("arr%02x" % op, op, op, k, fl=LOOP, msg=4)
        if op != 0x39:
            j("body%02x" % op, op, op, k, tail=1, msg=104, k=3 if not q else 2 if op in (0x35, 0x3A) else 1)
            if not q or op in (0x34, 0x3A):
                j("longbody%02x" % op, op, op, k, tail=4, msg=1)
            j("bulk%02x" % op, op, op, k, tail=2, msg=6)
    j("arrend", 0x38, 0x38, 0, fl=LOOP, msg=3)
    j("undefined3C-3F", 0x3C, 0x3F, 0, msg=1)
    for t in range(0x10, 0x1A):
        z = st(t)
        if t < 0x18:
            j("constcheck%02x" % t, 0x40, 0x40, 3 + z, msg=z + 1, at=3, byte=t)
            for k in (0, 1, 3):
                j("enum%02x-%d" % (t, k), 0x4B, 0x4B, 3 + k * z, msg=100 + z, at=1, byte=t, k=k)
        if t < 0x14:
            j("constwrite%02x" % t, 0x41, 0x41, 1 + z, msg=z + 1, at=1, byte=t)
        j("range%02x" % t, 0x42, 0x42, 1 + 2 * z, msg=z + 1, at=1, byte=t)
    j("badtypes", 0x40, 0x42, 3, msg=2)
    j("badtypes-enum", 0x4B, 0x4B, 3, msg=2)
    j("scale", 0x43, 0x43, 16, msg=1)
    j("crc", 0x44, 0x44, 7, msg=4)
    j("crc32", 0x49, 0x49, 13, msg=5)
    j("trans", 0x45, 0x48, 8, msg=1)
    j("opt", 0x4A, 0x4A, 0, msg=1)
    for k in (0, 1, 2):
        j("poly%d" % k, 0x4C, 0x4C, 1 + 8 * k, msg=1, at=1, byte=k)
        j("spline%d" % k, 0x4D, 0x4D, 1 + 16 * k, msg=1, at=1, byte=k)
    j("polybig", 0x4C, 0x4D, 1, msg=1)
    j("undefined4E-4F", 0x4E, 0x4F, 0, msg=1)
    j("jumpifnot", 0x50, 0x50, 4, fl=STACK, msg=1)
    j("jump", 0x52, 0x52, 4, msg=1)
    j("switch", 0x51, 0x51, 24, msg=100, weight=4)
    j("table", 0x53, 0x53, 34, msg=100, weight=9)
    j("undefined54-5F", 0x54, 0x5F, 0, msg=1)
    for a, b, k in ((0x60, 0x60, 2), (0x61, 0x61, 8), (0x62, 0x64, 0), (0x66, 0x77, 0), (0x78, 0x78, 2), (0x79, 0x82, 0), (0x83, 0x8C, 0), (0x8D, 0x95, 0), (0x96, 0x9F, 0), (0xA0, 0xA8, 0)):
        j("stack%02X-%02X" % (a, b), a, b, k, fl=STACK, msg=1, modes="d" if k == 0 else "ed")
    j("emit", 0x65, 0x65, 1, fl=STACK, msg=9)
    j("undefinedA9-FF", 0xA9, 0xFF, 0, msg=1, modes="d")
    for op in range(0x10, 0x1A):
        for tr in range(1, 8):
            if tr in (3, 4) and q and op not in (0x10, 0x17):
                continue
            j("io%02x-trans%d" % (op, tr), op, op, 2, fl=tr << 2, msg=st(op))
        j("check%02x" % op, op, op, 2, tail=3, msg=st(op) + 1)
    j("checkbool", 0x1A, 0x1A, 2, tail=3, msg=2)
    if not q:   # programs of free bytes
        for m in "ed":
            out.append(Job("free/" + m, None, group="vm", params=[0, 0, 0 if m == "e" else 1, -2, 0, 0, 103], text=T, must=["end"], time=1500, weight=5))
    return out


def st(op):
    return {0x10: 1, 0x11: 2, 0x12: 4, 0x13: 8, 0x14: 1, 0x15: 2, 0x16: 4, 0x17: 8, 0x18: 4, 0x19: 8}[op]
