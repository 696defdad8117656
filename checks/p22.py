from csxlib import Job
TITLE = "A program accepted by the verifier never fails structurally at run time"
BOUNDS = {"quick": "every opcode 0x00-0xFF with all operand bytes and every truncation, alone and between other instructions; programs with jumps, switches, dense tables, loops and nested switches whose every offset in turn takes all 2^32 values, and table headers with all values", "thorough": "the same with longer programs"}
ONE = '#include "verify.h"\nint harness(void) { vf_single((int)csx_param(0), (int)csx_param(1), (int)csx_param(2), (int)csx_param(3)); return 0; }\n'
CONC = "{ uint64_t k = vf_u(t + %d, 8) - vf_u(t + %d, 8); k = 0 - k; if (k < 16) { k = csx_concrete(k); uint64_t m = vf_u(t + %d, 8) + k; for (int i = 0; i < 8; i++) t[%d + 8 + i] = (uint8_t)(m >> (8 * i)); } }"
import struct


class A:
    """assembler: instruction starts with their loop depth, and the offset slots"""
    def __init__(s):
        s.b, s.at, s.d, s.slot, s.lab, s.fix = bytearray(), [], 0, [], {}, []

    def op(s, o, *args, open=0, close=0):
        if close:
            pass
        s.at.append((len(s.b), s.d))
        s.b.append(o)
        for a in args:
            s.b += a
        s.d += open - close
        return s

    def label(s, n):
        s.lab[n] = len(s.b)
        return s

    def jump(s, o, to):
        s.at.append((len(s.b), s.d))
        s.b.append(o)
        s.slot.append((len(s.b), len(s.b) + 4, s.d))
        s.fix.append((len(s.b), len(s.b) + 4, to))
        s.b += bytes(4)
        return s

    def switch(s, key, table, dense):
        s.at.append((len(s.b), s.d))
        s.b += bytes([0x53 if dense else 0x51, key, 0])
        s.base = len(s.b) + 4
        s.sd = s.d
        s.fix.append((len(s.b), s.base, table))
        s.tslot = len(s.b)
        s.b += bytes(4)
        return s

    def table(s, name, cases, default, dense, base, depth):
        s.lab[name] = len(s.b)
        if dense:
            s.b += struct.pack("<QQ", dense[0], dense[1])
        else:
            s.b += struct.pack("<H", len(cases))
        for i, c in enumerate([default] + cases):
            if i and not dense:
                s.b += struct.pack("<Q", c[0])
            to = c if i == 0 else c[1]
            s.slot.append((len(s.b), base, depth))
            s.fix.append((len(s.b), base, to))
            s.b += bytes(4)
        return s

    def done(s):
        s.at.append((len(s.b), s.d))
        for off, base, to in s.fix:
            s.b[off:off + 4] = struct.pack("<i", s.lab[to] - base)
        return s


def programs():
    K = b"\x05\x00"
    u8 = lambda p: p.op(0x10, K)
    # forward and backward jumps
    p = A().op(0x00)
    u8(p).jump(0x52, "x").op(0x61, bytes([3] * 8)).op(0x62).label("x")
    u8(p).op(0x05, b"\x10")
    yield "jump", p.done(), []
    # conditional
    p = A().op(0x61, bytes([0x10] * 8)).jump(0x50, "e")
    u8(p).op(0x40, K, b"\x11", b"\x01\x01").jump(0x52, "x").label("e")
    p.op(0x11, K).label("x").op(0x00)
    yield "if", p.done(), []
    # loops
    p = A().jump(0x52, "x").op(0x34, K, b"\x01\0\0\0", open=1)
    u8(p).jump(0x52, "l").op(0x00).label("l").op(0x35, K, open=1)
    u8(p).op(0x38, close=1).op(0x00).op(0x38, close=1).label("x")
    u8(p)
    yield "loops", p.done(), []
    # switch, sparse and dense
    for dense in (None, (1, 3), (0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF)):
        p = A().op(0x10, K).switch(5, "t", bool(dense))
        base = p.base
        p.label("a")
        u8(p).jump(0x52, "x").label("b")
        p.op(0x11, K).jump(0x52, "x").label("d").op(0x00).jump(0x52, "x")
        n = (dense[1] - dense[0] + 1) if dense else 2
        p.table("t", [(7, "a"), (0xFFFFFFFFFFFFFFFF, "b"), (9, "a")][:n], "d", dense, base, 0)
        p.label("x").op(0x00)
        yield "switch" + ("" if not dense else "-dense%d" % (dense[0] & 3)), p.done(), [len(p.b)]
    # a switch in a loop with a nested switch
    p = A().op(0x34, K, b"\x01\0\0\0", open=1).switch(5, "t", False)
    b1 = p.base
    p.label("a").switch(6, "t2", False)
    b2 = p.base
    p.label("c")
    u8(p).jump(0x52, "x2").table("t2", [(1, "c")], "x2", None, b2, 1).label("x2").op(0x00).jump(0x52, "x").label("b")
    p.op(0x11, K).jump(0x52, "x").table("t", [(1, "a")], "b", None, b1, 1).label("x").op(0x38, close=1).op(0x00)
    yield "nested", p.done(), []
    # a loop in a case
    p = A().switch(5, "t", False)
    b1 = p.base
    p.label("a").op(0x3B, K, K, open=1)
    u8(p).op(0x38, close=1).jump(0x52, "x").table("t", [(1, "a")], "x", None, b1, 0).label("x").op(0x00)
    yield "case-loop", p.done(), []


def make(tier, seed):
    out = []
    SZ = {}
    for ops, z in ((range(0x10, 0x1B), 3), ((0x03, 0x07, 0x60, 0x78, 0x22, 0x31, 0x32, 0x33, 0x35, 0x36, 0x37, 0x3A), 2), ((0x20, 0x21), 3), ((0x30, 0x3B, 0x50, 0x52), 4), ((0x34, 0x39), 6), ((0x40,), 11), ((0x41,), 9), ((0x42,), 17), ((0x4B,), 11), ((0x4C,), 17), ((0x4D,), 17), ((0x43,), 16), ((0x44,), 7), ((0x49,), 13), ((0x45, 0x46, 0x47, 0x48, 0x61), 8), ((0x05, 0x23, 0x24, 0x65), 1)):
        for o in ops:
            SZ[o] = z - 1 if o in range(0x10, 0x1B) else z
    runs = []
    for o in range(256):
        if o in (0x51, 0x53):
            continue
        k = SZ.get(o, 0)
        if runs and runs[-1][1] == o - 1 and runs[-1][2] == k:
            runs[-1][1] = o
        else:
            runs.append([o, o, k])
    for lo, hi, k in runs:
        for pre in (0, 1):
            for m in (0, 1):
                if k == 0 and m == 0 and lo != hi:
                    continue
                out.append(Job("op%02X-%02X/%d%s" % (lo, hi, pre, "ed"[m]), None, group="vm", params=[lo, hi, k + 1 if k in (1, 2, 3) else k, pre, m], text=ONE, time=200))
    for nm, p, _ in programs():
        arr = ", ".join(str(x) for x in p.b)
        at = ", ".join("{%d, %d}" % x for x in p.at)
        for i, (off, base, depth) in enumerate(p.slot):
            t = '#include "verify.h"\nint harness(void) { static const uint8_t P[] = {%s}; static const vf_at T[] = {%s}; %svf_jump(P, %d, %d, %d, T, %d, %d, 1); return 0; }\n' % (arr, at, "".join("csxh_tab[csxh_ntab++] = %d; " % p.lab[k] for k in ("t", "t2") if k in p.lab), len(p.b), off, base, len(p.at), depth)
            for m in (0, 1):
                out.append(Job("%s-offset%d/%s" % (nm, i, "ed"[m]), None, group="vm", params=[0, m], text=t, time=200, must=["accepted", "rejected", "ran"]))
        # table header: any bytes; an accepted table lies inside the program
        if "t" in p.lab:
            sw = [i for i, x in enumerate(p.b) if x in (0x51, 0x53)][0]
            dense = p.b[sw] == 0x53
            tb = p.lab["t"]
            for what, off, n in (("tableoff", p.tslot, 4), ("header", tb, 16 if dense else 2)):
                t = '''#include "verify.h"
int harness(void) { static const uint8_t P[] = {%s}; static uint8_t t[256]; memcpy(t, P, %d); csx_bytes(t + %d, %d, "bytes"); %s
  int ok = vf_load(t, %d); size_t base = %d, at = base + (size_t)vf_u(t + %d, 4), head = %d;
  int in = at <= %d && %d - at >= head;
  csx_assert(in || !ok, "a jump table outside the program is accepted");
  if (in && ok) { at = (size_t)csx_concrete(at); size_t room = %d - at - head; uint64_t k = %s; csx_assert(k <= room / %d, "a jump table outside the program is accepted"); %s }
  if (ok) csx_reach("fits"); return 0; }
''' % (arr, len(p.b), off, n, CONC % (tb, tb + 8, tb, tb) if dense and what == "header" else "", len(p.b), p.tslot + 4, p.tslot, 20 if dense else 6, len(p.b), len(p.b), len(p.b), "vf_u(t + at + 8, 8) - vf_u(t + at, 8)" if dense else "vf_u(t + at, 2)", 4 if dense else 12, "csx_assert(vf_u(t + at + 8, 8) >= vf_u(t + at, 8), \"an empty jump table is accepted\"); csx_assert(k < room / 4, \"a jump table outside the program is accepted\");" if dense else "")
                if nm not in ("nested",):
                    out.append(Job("%s-%s" % (nm, what), None, group="vm", text=t, time=200, must=["accepted", "rejected", "fits"]))
        # every truncation is judged without touching memory outside
        t = '#include "verify.h"\nint harness(void) { static const uint8_t P[] = {%s}; size_t n = csx_pick(0, %d, "length"); int ok = vf_load(P, n); if (ok && n) vf_exec(1, 0); return 0; }\n' % (arr, len(p.b))
        out.append(Job("%s-cut" % nm, None, group="vm", text=t, time=200, must=["accepted", "rejected", "ran"]))
    return out
