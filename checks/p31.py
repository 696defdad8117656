from csxlib import Job
TITLE = "Command-line inspection tools survive any file"
BOUNDS = {"quick": "listing: every instruction with all operand values (32-bit and 64-bit operands, up to 3 polynomial, spline and enum entries), alone, after and before another instruction, in images with 0-3 strings of arbitrary bytes; switches of up to 3 cases in both forms, nested to depth 2, with arbitrary values and offsets; damage: files of up to 18 arbitrary bytes after the magic, every header place and few or many strings, byte-code cut off at every place of every instruction followed by one arbitrary byte, up to 70 open switches; image loading: every header and string area of up to 6 bytes; hex dumps of all files of up to 34 bytes", "thorough": "larger cut-off tables; strings of up to 9 bytes"}
ASSUMPTIONS = ["files are what the in-memory file system of the symbolic libc provides (regular files, missing files and directories); printf and its relatives are recorded, not formatted"]
H = '#include "inspect.h"\n'
R = ["printf", "fprintf", "puts", "fputs", "putchar", "fputc", "putc"]
DEFS = ["-U_FORTIFY_SOURCE", "-fno-jump-tables", "-I/usr/include/cjson"] + ["-D%s=is_%s" % (x, x) for x in R]
INS = H + '''int harness(void) { int pre = (int)csx_param(2), nop = (int)csx_param(3); is_head(1, "P", 2); uint8_t* p = csxh_f + csxh_n;
  if (pre) { *p++ = OP_IO_U8; csx_bytes(p, 2, "key"); p += 2; }
  uint8_t* q = p; uint8_t op = (uint8_t)csx_concrete(csx_pick(csx_param(0), csx_param(1), "opcode")); q[0] = op; csx_bytes(q + 1, nop, "operands"); is_type(q, 30);
  if (op == OP_ENUM_CHECK) csx_assume(vf_u(q + 2, 2) <= 3); if (op == OP_TRANS_POLY) csx_assume(q[1] <= 3); if (op == OP_TRANS_SPLINE) csx_assume(q[1] <= 1);
  size_t z = csx_concrete(vf_size(q, 64)); csx_assume(z != 0 && z <= (size_t)nop + 1); p += z; uint8_t* t = p; *p++ = OP_IO_U16; csx_bytes(p, 2, "next key"); p += 2;
  csxh_n = (size_t)(p - csxh_f); csx_assert(is_run() == 0, "a valid image is not listed"); is_front(1);
  is_find("--- Bytecode ---"); is_eol(); uint8_t* b = csxh_f + csxh_bo;
  if (pre) is_line(b, b, p); is_line(b, q, p); is_line(b, t, p); csx_assert(is_at >= csxh_ni, "the listing goes on after the program"); csx_reach("listed"); return 0; }
'''
TABS = H + '''static uint8_t* sw(uint8_t* p, uint8_t** ins, int* n, int depth) { int k = (int)csx_pick(csx_param(1), csx_param(2), "cases"), form = (int)csx_pick(0, 1, "form"); uint8_t* s = p; ins[(*n)++] = s;
  if (form && !k) k = 1;
  *p++ = form ? OP_SWITCH_TABLE : OP_SWITCH; csx_bytes(p, 2, "key"); p += 6; uint8_t* c = p;
  if (csx_param(3)) { ins[(*n)++] = p; *p++ = OP_LOAD_CTX; csx_bytes(p, 2, "key"); p += 2; }
  if (depth > 1) p = sw(p, ins, n, depth - 1);
  is_put(s + 3, (uint64_t)(p - c), 4);
  if (form) { uint64_t lo = csx_u64("low"); csx_assume(lo <= UINT64_MAX - 4); is_put(p, lo, 8); is_put(p + 8, lo + k - 1, 8); csx_bytes(p + 16, 4 + 4 * k, "offsets"); p += 20 + 4 * k; }
  else { is_put(p, k, 2); csx_bytes(p + 2, 4 + 12 * k, "table"); p += 6 + 12 * k; }
  if (csx_param(4)) { ins[(*n)++] = p; *p++ = OP_NOOP; }
  return p; }
int harness(void) { static uint8_t* ins[32]; int n = 0; is_head(1, "P", 2); uint8_t* b = csxh_f + csxh_n; uint8_t* p = sw(b, ins, &n, (int)csx_param(0));
  csxh_n = (size_t)(p - csxh_f); csx_assert(is_run() == 0, "a valid image is not listed"); is_find("--- Bytecode ---"); is_eol();
  for (int i = 0; i < n; i++) is_line(b, ins[i], p); csx_assert(is_at >= csxh_ni, "the listing goes on after the program"); csx_reach("listed"); return 0; }
'''
STRS = H + '''int harness(void) { static char t[16]; int k = (int)csx_param(0), c = 0; csx_bytes(t, k, "strings"); if (k) t[k - 1] = 0; for (int i = 0; i < k; i++) { t[i] = (char)csx_concrete((uint8_t)t[i] != 0) ? t[i] : 0; c += !t[i]; }
  c = (int)csx_concrete(c); is_head(c, t, k); csxh_f[csxh_n++] = OP_NOOP; csx_assert(is_run() == 0, "a valid image is not listed"); is_front(c); is_find("--- String Table ---"); is_eol();
  int at = 0; for (int i = 0; i < c; i++) { is_int(i, "a string is not listed"); is_raw(t + at); at += (int)strlen(t + at) + 1; is_eol(); }
  is_find("--- Bytecode ---"); is_eol(); uint8_t* b = csxh_f + csxh_bo; is_line(b, b, b + 1); csx_assert(is_at >= csxh_ni, "the listing goes on after the program"); csx_reach("listed"); return 0; }
'''
DMG = H + '''int harness(void) { int n = (int)csx_param(0); csxh_n = n; if (n >= 5) { memcpy(csxh_f, "CNDIL", 5); csx_bytes(csxh_f + 5, n - 5, "image"); if (n >= 16) { csxh_f[5] = 1; is_put(csxh_f + 6, is_few(3, "count"), 2); if (csx_param(1)) { is_put(csxh_f + 8, is_place(n, "string table"), 4); is_put(csxh_f + 12, n, 4); } else { is_put(csxh_f + 8, n, 4); is_put(csxh_f + 12, is_place(n, "byte-code"), 4); } } } else csx_bytes(csxh_f, n, "image");
  int rc = is_run(); csx_assert((n >= 16) == !rc, "exit status of a damaged image"); csx_reach("survived"); return 0; }
'''
HDR = H + '''int harness(void) { csxh_n = 20; csxh_f[5] = 1; is_put(csxh_f + 6, is_few(2, "count"), 2); is_put(csxh_f + 8, is_place(20, "string table"), 4); is_put(csxh_f + 12, is_place(20, "byte-code"), 4); memset(csxh_f + 16, 0, 4); csxh_f[17] = OP_PUSH_IMM; memset(csxh_f, 0, 5); csx_bytes(csxh_f, 5, "magic");
  int rc = is_run(); csx_assert(!rc == !memcmp(csxh_f, "CNDIL", 5), "exit status of a damaged image"); csx_reach(rc ? "refused" : "survived"); return 0; }
'''
CUT = H + '''int harness(void) { is_head(1, "P", 2); uint8_t* q = csxh_f + csxh_n; uint8_t op = q[0] = (uint8_t)csx_concrete(csx_pick(csx_param(0), csx_param(1), "opcode")); csxh_n++;
  int typed = op == OP_CONST_CHECK || op == OP_CONST_WRITE || op == OP_RANGE_CHECK || op == OP_ENUM_CHECK || op == OP_TRANS_POLY || op == OP_TRANS_SPLINE || op == OP_SWITCH || op == OP_SWITCH_TABLE;
  int z = op == OP_CONST_CHECK || op == OP_CONST_WRITE || op == OP_RANGE_CHECK ? 0 : op == OP_ENUM_CHECK ? 3 : op == OP_TRANS_POLY || op == OP_TRANS_SPLINE ? 1 : typed ? 4 : op == OP_EMIT ? 2 : op == OP_IO_BIT_U || op == OP_IO_BIT_I ? 4 : (int)vf_size(q, 64); if (!z && !typed) z = 1;
  int k = (int)csx_pick(0, typed ? csx_param(2) : z, "bytes"); memset(csxh_f + csxh_n, 1, k); csx_bytes(csxh_f + csxh_n, k < z ? k : z, "bytes"); is_type(q, k + 1); if (op == OP_ENUM_CHECK && k > 2) is_put(q + 2, is_few(12, "values"), 2); if (op == OP_EMIT) { csxh_f[csxh_n + 1] &= 0x1F; } csxh_n += k;
  csx_assert(is_run() == 0, "exit status of a damaged image"); csx_reach("survived"); return 0; }
'''
PAIR = H + '''int harness(void) { is_head(1, "P", 2); csxh_f[csxh_n++] = (uint8_t)csx_param(0); csx_bytes(csxh_f + csxh_n, 2, "bytes"); csxh_n += 2; csx_assert(is_run() == 0, "exit status of a damaged image"); csx_reach("survived"); return 0; }
'''
OPEN = H + '''int harness(void) { is_head(0, "", 0); int k = (int)csx_param(0); static uint8_t big[800]; memcpy(big, csxh_f, 16); uint8_t* p = big + 16; for (int i = 0; i < k; i++) { *p = OP_SWITCH; is_put(p + 1, 0, 2); is_put(p + 3, (uint64_t)(k - 1 - i) * 7, 4); p += 7; } csx_bytes(p, 8, "table"); p[0] &= 1; p[1] = 0; p += 8;
  csx_file("f.il", big, (size_t)(p - big)); csx_assert(cmd_inspect(3, csxh_av) == 0, "exit status"); csx_reach("survived"); return 0; }
'''
ARGS = H + '''int harness(void) { char* av[3] = {csxh_p0, csxh_p1, 0}; csx_assert(cmd_inspect(2, av) == 1, "a missing argument is accepted"); csx_assert(csxh_ni > 0, "no message");
  csxh_ni = 0; csx_assert(cmd_inspect(3, csxh_av) == 1, "a missing file is accepted"); csx_assert(csxh_ni > 0, "no message");
  csx_file("d/x", "abc", 3); char d[] = "d"; csxh_av[2] = d; csxh_ni = 0; csx_assert(cmd_inspect(3, csxh_av) == 1, "a directory is accepted"); csx_assert(csxh_ni > 0, "no message"); csx_reach("survived"); return 0; }
'''
LOAD = H + '''#include "cli_helpers.h"
static ILFile csxh_il;
static void load(void) { csx_file("f.il", csxh_f, csxh_n); memset(&csxh_il, 0xA5, sizeof csxh_il); int ok = load_il("f.il", &csxh_il);
  int good = csxh_n >= 16 && !memcmp(csxh_f, "CNDIL", 5); size_t so = vf_u(csxh_f + 8, 4), bo = vf_u(csxh_f + 12, 4), c = vf_u(csxh_f + 6, 2);
  if (good) { if (so > csxh_n || bo > csxh_n || c > csxh_n - so) good = 0; }
  size_t at = 0; if (good) { so = csx_concrete(so); bo = csx_concrete(bo); c = csx_concrete(c); at = so; for (size_t i = 0; i < c; i++) { while (at < csxh_n && csxh_f[at]) at++; if (at >= csxh_n) { good = 0; break; } at++; } }
  csx_assert(!ok == !good, "exactly the images whose strings and byte-code lie inside the file are loaded"); csx_reach(ok ? "loaded" : "refused"); csx_note("ok", ok);
  if (ok) { csx_assert(csxh_il.bytecode_len == csxh_n - bo && csxh_il.bytecode - csxh_il.raw_data == (long)bo && csxh_il.raw_len == csxh_n, "the byte-code is not the image's"); csx_assert(csxh_il.str_count == c, "string count"); at = so;
    for (size_t i = 0; i < c; i++) { csx_assert(!strcmp(csxh_il.string_table[i], (char*)csxh_f + at), "a string is wrong"); at += strlen((char*)csxh_f + at) + 1; } free_il(&csxh_il); }
  if (csxh_open_files) csx_assert(csxh_open_files() == 0, "the file stays open"); }
int harness(void) { int so = (int)csx_param(0), k = (int)csx_param(1); csxh_n = so + k; memcpy(csxh_f, "CNDIL\\1", 6);
  if (csx_param(2)) { csx_bytes(csxh_f, csxh_n, "image"); if (csxh_n >= 16) { is_put(csxh_f + 6, is_few(3, "count"), 2); is_put(csxh_f + 8, is_place(csxh_n, "string table"), 4); } } else { is_put(csxh_f + 6, is_few(k + 1, "count"), 2); is_put(csxh_f + 8, so, 4); is_put(csxh_f + 12, so + (k > 1), 4); csx_bytes(csxh_f + so, k, "strings"); }
  load(); return 0; }
'''
FILES = H + '''#include "cli_helpers.h"
int harness(void) { int n = (int)csx_param(0); static uint8_t d[16]; csx_bytes(d, n, "file"); csx_file("f", d, n); size_t k = 99; uint8_t* b = read_file_bytes("f", &k); csx_assert(b && k == (size_t)n && !memcmp(b, d, n), "reading a file changes it"); free(b);
  char* t = read_file_text("f"); csx_assert(t && !memcmp(t, d, n) && !t[n], "reading a text changes it"); 
  csx_assert(write_file_bytes("g", d, n), "writing a file"); static uint8_t e[16]; csx_assert(csx_file_get("g", e, 16) == (size_t)n && !memcmp(e, d, n), "writing a file changes it"); free(t);
  csx_file("d/x", "abc", 3); csx_assert(!read_file_bytes("d", &k) && !read_file_text("d") && !read_file_bytes("none", &k) && !read_file_text("none"), "a directory or missing file is read");
  if (csxh_open_files) csx_assert(csxh_open_files() == 0, "the file stays open"); csx_reach("survived"); return 0; }
'''
HEX = H + '''static int csxh_dv[40], csxh_k;
int harness(void) { int n = (int)csx_pick(csx_param(0), csx_param(1), "length"); csx_bytes(csxh_f, n, "file"); csx_file("f.il", csxh_f, n); char* av[3] = {csxh_p0, csxh_p2, 0};
  csx_assert(hexview_main(2, av) == 0, "a file is not dumped"); if (csxh_open_files) csx_assert(csxh_open_files() == 0, "the file stays open");
  int k = 0; for (int i = 0; i < csxh_ni; i++) if (csxh_it[i].k == IS_INT) { csx_assert(k < n && csxh_it[i].v == csxh_f[k], "the dump differs from the file"); k++; }
  csx_assert(k == n, "the dump is incomplete"); csx_reach("survived");
  char m[] = "none"; av[1] = m; csx_assert(hexview_main(2, av) == 1 && hexview_main(1, av) == 1, "a missing file is dumped"); csx_file("d/x", "abc", 3); char d[] = "d"; av[1] = d; hexview_main(2, av); return 0; }
'''


def make(tier, seed):
    q = tier == "quick"
    out = []
    cli = ["src/cli/cmd_inspect.c"]
    hlp = cli + ["src/cli/cli_helpers.c"]

    def J(label, text, params=(), src=cli, must=("survived",), **kw):
        out.append(Job(label, None, group="vm", text=text, params=params, defs=DEFS, extra=src, time=400, must=list(must), **kw))
    groups = [(0x00, 0x05), (0x07, 0x1A), (0x20, 0x26), (0x30, 0x33), (0x34, 0x3B), (0x40, 0x40), (0x41, 0x41), (0x42, 0x42), (0x43, 0x44), (0x45, 0x4A), (0x4B, 0x4B), (0x4C, 0x4D), (0x50, 0x50), (0x52, 0x52), (0x60, 0x65), (0x69, 0x78), (0x80, 0x8B), (0x90, 0xA5)]
    for a, b in groups:
        for pre in (0, 1):
            J("instr%02x-%02x+%d" % (a, b, pre), INS, [a, b, pre, 30 if a != 0x4C else 26], must=["listed"])
    for d in (1, 2, 3):
        for pre in (0, 1):
            for post in (0, 1):
                J("switch%d+%d%d" % (d, pre, post), TABS, [d, 0 if d < 3 else 1, (3 if d == 1 else 2 if d == 2 else 1), pre, post], must=["listed"])
    for k in range(0, 7 if q else 10):
        J("strings%d" % k, STRS, [k], must=["listed"])
    for n in range(0, 19 if q else 21):
        for st in (0, 1) if n >= 16 else (0,):
            J("damaged%d-%d" % (n, st), DMG, [n, st], weight=n)
    J("header", HDR, must=["survived", "refused"], weight=30)
    for a in range(0, 256, 16):
        J("cut%02x" % a, CUT, [a, a + 15, 22 if q else 40], weight=20)
    J("pair", PAIR, [0], weight=20)
    for k in (1, 2, 63, 64, 65, 70):
        J("open%d" % k, OPEN, [k])
    J("arguments", ARGS)
    for so in (16, 17, 40):
        for k in range(0, 7 if q else 10):
            J("load%d+%d" % (so, k), LOAD, [so, k, 0], src=hlp, must=["refused"] + (["loaded"] if k < 7 else []))
    for n in range(12, 20 if q else 22):
        J("load-any%d" % n, LOAD, [n, 0, 1], src=hlp, must=["refused"] + (["loaded"] if n >= 16 else []), weight=n)
    for n in (0, 1, 8):
        J("files%d" % n, FILES, [n], src=hlp)
    out.append(Job("hexview-short", None, group="none", text=HEX, params=[0, 18], defs=DEFS + ["-Dmain=hexview_main"], extra=["src/tools/hexview.c"], time=300, must=["survived"]))
    out.append(Job("hexview-long", None, group="none", text=HEX, params=[31, 34], defs=DEFS + ["-Dmain=hexview_main"], extra=["src/tools/hexview.c"], time=300, must=["survived"]))
    return out
