from csxlib import Job
from texts import *
TITLE = "Imports are resolved once, relative to the importing file, and cycles end"
BOUNDS = {"quick": "every import graph over four files with two imports each (targets: any of the files, itself and the main file included, or a missing file), each import in one of five spellings; every import path of up to 8 characters over file and directory names, '.', '/' against an independent resolution; imported files of 4 arbitrary bytes; chains of 25 files; the file and line named by diagnostics in imported files and after imports", "thorough": "import paths of up to 10 characters, imported files of 5 arbitrary bytes"}
ASSUMPTIONS = "The file system is modelled (regular files and directories, '.' and '..'); symbolic links are outside the model. Counterexamples are replayed on the real file system."
H = '#include "import.h"\n'
SP = ["%c", "./%c", "../n/%c", "d//.././%c", "..//n/d/../%c"]
GRAPH = H + '''int harness(void) {
  static const char* const SPELL[] = {%s}; static const char* const ST = "ABC"; int miss = (int)csx_param(2);
  csx_file("n/d/x", "", 0);
  for (int i = 0; i < 4; i++) { for (int s = 0; s < 2; s++) { uint8_t c = csx_u8("target"); csx_assume((c >= 'a' && c <= 'c') || c == 'm' || (miss && s == 0 && c == 'z')); csxh_t[i][s] = c; }
    char* f = csxh_f[i]; char p[40], q[40]; sprintf(p, SPELL[(i + csx_param(0)) %% 5], '?'); sprintf(q, SPELL[(i * 2 + 1 + csx_param(0)) %% 5], '!');
    if (i < 3 && (csx_param(0) & 1)) sprintf(f, "@import(\\"%%s\\") /// d\\nstruct %%c{uint8 x%%c;}@import(\\"%%s\\")%%s", p, ST[i], ST[i] + 32, q, i == 1 ? " // end" : i == 2 ? "; /* end" : "\\n/// end");
    if (i < 3 && !(csx_param(0) & 1)) sprintf(f, "@import(\\"%%s\\")@import(\\"%%s\\")enum E%%c{V%%c}struct %%c{uint8 x%%c;}", p, q, ST[i], ST[i], ST[i], ST[i] + 32);
    if (i == 3) sprintf(f, csx_param(0) & 1 ? "struct M{uint8 y;}@import(\\"%%s\\") ; @import(\\"%%s\\")packet P{M m;%%c f;}" : "@import(\\"%%s\\")@import(\\"%%s\\")struct M{uint8 y;}packet P{M m;%%c f;}", p, q, ST[csx_param(1)]);
    for (char* z = f; *z; z++) if (*z == '?') *z = (char)csxh_t[i][0]; else if (*z == '!') *z = (char)csxh_t[i][1];
    if (i < 3) csx_file(IM_NAME[i], f, strlen(f)); }
  csx_capture(1); int rc = so_compile(csxh_f[3], csx_param(0) & 1 ? "n/m" : "n/../n/./m", 0);
  csxh_seen[3] = 1; im_walk(3); int want = !csxh_missing && csxh_seen[csx_param(1)];
  csx_note("rc", rc != 0); csx_note("missing", csxh_missing); if (want) csx_reach("imported"); if (!want) csx_reach("not imported");
  if (csxh_missing) csx_assert(rc != 0, "a missing import is not reported");
  else if (want) csx_assert(rc == 0, "an imported definition is not available"); else csx_assert(rc != 0, "a definition which is not imported is available");
  if (rc == 0) { memcpy(csxh_ref, csxh_img, csxh_refn = csxh_in); csx_file("o.il", "", 0); static const char* const S[] = {"struct M{uint8 y;}struct A{uint8 xa;}packet P{M m;A f;}", "struct M{uint8 y;}struct B{uint8 xb;}packet P{M m;B f;}", "struct M{uint8 y;}struct C{uint8 xc;}packet P{M m;C f;}"};
    csx_assert(so_compile(S[csx_param(1)], "s.cnd", 0) == 0 && csxh_in == csxh_refn && !memcmp(csxh_img, csxh_ref, csxh_refn), "importing definitions is not the same as writing them out"); }
  return 0; }
'''
PATH = H + '''int harness(void) { static char w[20], o[40]; int n = (int)csx_param(0); csx_bytes(w, n, "path");
  for (int i = 0; i < n; i++) csx_assume(w[i] == 'a' || w[i] == 'd' || w[i] == 'e' || w[i] == '.' || w[i] == '/' || (csx_param(1) && w[i] == 'n'));
  static const char* const F[] = {"n/a", "n/d/a", "n/d/e/a", "a", "n/aa", "n/d/d", "n/.a"}; for (int i = 0; i < 7; i++) csx_file(F[i], "struct A{uint8 ?;}" , 0);
  static char t[40]; for (int i = 0; i < 7; i++) { sprintf(t, "struct A{uint8 x%%d;}", i); csx_file(F[i], t, strlen(t)); }
  sprintf(csxh_f[0], "@import(\\"%%.*s\\")packet P{A a;}", n, w); csx_capture(1); int rc = so_compile(csxh_f[0], "n/m", 0);
  int k = -1; if (im_resolve(w, n, o)) for (int i = 0; i < 7; i++) if (!strcmp(o, F[i])) k = i;
  if (k >= 0) csx_reach("imported"); else csx_reach("not imported");
  csx_assert((rc == 0) == (k >= 0), k >= 0 ? "an existing file is not imported" : "a path which leads to no file is imported");
  if (rc == 0) { sprintf(t, "a.x%%d", k); int hit = 0; for (size_t i = 16; i + 4 < csxh_in; i++) if (!strcmp((char*)csxh_img + i, t) || !strcmp((char*)csxh_img + i, t + 2)) hit = 1; csx_assert(hit, "another file than the one written is imported"); }
  return 0; }
'''
BYTES = H + '''int harness(void) { static char w[20]; int n = (int)csx_param(0); csx_file("n/a", "", 0); ly_base("packet P{uint8 a;}"); csx_bytes(w, n, "file"); %s csx_file("n/a", w, n); csx_capture(1);
  int rc = so_compile("@import(\\"a\\")@import(\\"./a\\")packet P{uint8 a;}", "n/m", 0); csx_note("rc", rc != 0); if (rc == 0) csx_reach("accepted"); else csx_reach("rejected");
  int at = 0; for (int i = 0; i < n; i++) { if (!w[i]) break; if (w[i] == '@') at = 1; }
  csx_assert(rc == 0 ? csxh_in > 0 : csx_out_count(1) > 0, "result and output do not agree"); if (rc == 0 && !at) csx_assert(csxh_in == csxh_refn && !memcmp(csxh_img, csxh_ref, csxh_in), "an imported file without definitions changes the importing file"); return 0; }
'''
CHAIN = H + '''int harness(void) { char t[200], nm[20]; int n = 25; for (int i = 0; i < n; i++) { sprintf(nm, "n/f%%d", i); if (i == n - 1) sprintf(t, "@import(\\"%%s\\")struct S%%d{uint8 a;}", csx_param(0) == 0 ? "f0" : csx_param(0) == 1 ? "m" : csx_param(0) == 2 ? "zz" : "../n/f24", i); else sprintf(t, "@import(\\"f%%d\\")struct S%%d{%%s%%d s;uint8 b;}", i + 1, i, csx_param(0) == 3 ? "S" : "S", i + 1); csx_file(nm, t, strlen(t)); }
  csx_capture(1); int rc = so_compile("@import(\\"f0\\")packet P{S0 s;}", "n/m", 1); csx_reach("chain"); csx_assert((rc != 0) == (csx_param(0) == 2), "a chain of imports"); if (!rc) so_image(csxh_img, csxh_in); return 0; }
'''
DIAG = H + '''int harness(void) { ly_make((int)csx_param(1), (int)csx_param(2)); int where = (int)csx_param(0), json = (int)csx_pick(0, 1, "json"); static char a[300], m[300];
  sprintf(a, "enum E{V}\\n%%sstruct A{\\n%%s\\nuint8 x;}\\n", csxh_ins, where == 0 ? "foo q;" : "uint8 q;");
  sprintf(m, "// m\\n@import(\\"./a\\")\\n%%s\\n@import(\\"a\\")packet P{\\n%%s\\n%%s\\nA a;}\\n", where == 3 ? "@import(\\"zz\\")" : "", where == 2 ? csxh_ins : "", where == 0 ? "A b;" : "foo q;");
  csx_file("n/a", a, strlen(a)); csx_capture(1); int rc = so_compile(m, "n/m", json); csx_reach("rejected"); csx_assert(rc != 0, "an invalid schema is accepted");
  int want = where == 0 ? 3 + csxh_nl : where == 2 ? 6 + csxh_nl : where == 3 ? 3 : 6;
  int l = ly_line(0, json ? "\\"line\\": " : where == 0 ? "n/a:" : "n/m:"); csx_note("line", l); csx_assert(l == want, "the diagnostic does not name the line of the error");
  csx_assert(strstr(csxh_lytx, where == 0 ? "n/a" : "n/m") != 0, "the diagnostic does not name the file of the error"); return 0; }
'''


def make(tier, seed):
    q = tier == "quick"
    out = []
    sp = ", ".join(cq(x) for x in SP)
    for v in range(5):
        for s in range(3):
            for miss in (0, 1):
                if miss and (v not in (2, 3) or s != 1) or not miss and q and v > 1 and s != v % 3:
                    continue
                out.append(Job("graph%d-%s%s" % (v, "ABC"[s], "-missing" if miss else ""), None, group="comp", text=GRAPH % sp, params=[v, s, miss], time=600, must=["imported", "not imported"], weight=6))
    for n in range(0, 9 if q else 11):
        for u in (0, 1):
            if u and n > (6 if q else 8):
                continue
            out.append(Job("path%d%s" % (n, "n" if u else ""), None, group="comp", text=PATH.replace("%%", "%"), params=[n, u], time=600, must=["not imported"] + (["imported"] if n else []), weight=n))
    for n in range(0, 5 if q else 6):
        out.append(Job("file%d" % n, None, group="comp", text=BYTES % "", params=[n], time=600, weight=n, must=["accepted"]))
    for k in range(4):
        out.append(Job("chain%d" % k, None, group="comp", text=CHAIN.replace("%%", "%"), params=[k], time=300, must=["chain"]))
    for w in range(4):
        for kd, n in ((0, 2), (1, 2), (2, 3)):
            out.append(Job("line%d-%d" % (w, kd), None, group="comp", text=DIAG.replace("%%", "%"), params=[w, kd, n], time=300, must=["rejected"]))
    return out
