"""Driver: builds the engine and the code under test, runs symbolic-execution jobs in parallel, replays counterexamples natively,
applies the known-findings list and writes the evidence file."""
import os, sys, json, subprocess, hashlib, tempfile, shutil, time, glob, threading, re, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CSX_REPO", "/repo")
CLANG = "clang-18"
NCPU = int(os.environ.get("CSX_JOBS", "8"))
UB = "bounds,shift-exponent,integer-divide-by-zero,float-cast-overflow,unreachable,return,vla-bound"
INC = ["-I" + VERIF + "/rt", "-I" + VERIF + "/harness", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/vm", "-I" + REPO + "/src/compiler", "-I" + REPO + "/src/cli"]
BCF = ["-g", "-O1", "-w", "-c", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-D__NO_CTYPE", "-ffp-contract=off", "-fno-strict-aliasing", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE"]
GROUPS = {"vm": ["src/vm/*.c"], "comp": ["src/vm/*.c", "src/compiler/*.c"], "none": []}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def engine():
    """Builds /verif/build/csx when its sources changed; returns its path."""
    src = sorted(glob.glob(VERIF + "/engine/*"))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    bd = VERIF + "/build"
    os.makedirs(bd, exist_ok=True)
    out = bd + "/csx-" + h
    with open(bd + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for old in glob.glob(bd + "/csx-*"):
                os.unlink(old)
            fl = sh(["llvm-config-18", "--cxxflags"]).stdout.decode().split()
            ld = sh(["llvm-config-18", "--ldflags", "--libs", "--link-shared"]).stdout.decode().split()
            r = sh(["g++", "-O2", "-w", VERIF + "/engine/csx.cpp", "-I" + VERIF + "/engine"] + fl + ["-fexceptions", "-frtti", "-o", out + ".tmp"] + ld + ["-lz3", "-lpthread"])
            if r.returncode:
                sys.stderr.write(r.stderr.decode()[-3000:])
                raise SystemExit(2)
            os.rename(out + ".tmp", out)
    return out


class Job:
    def __init__(self, label, harness, group="vm", params=(), defs=(), time=120, opts=(), must=(), extra=(), text=None, steps=None, mem=3000, weight=1, note=None):
        self.label, self.harness, self.group, self.params, self.defs = label, harness, group, [int(p) for p in params], list(defs)
        self.time, self.opts, self.must, self.extra, self.text, self.steps, self.mem, self.weight, self.note = time, list(opts), list(must), list(extra), text, steps, mem, weight, note


class Session:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="csx-%s-" % prop)
        self.t0 = time.time()
        self.cache = {}
        self.lock = threading.Lock()
        self.csx = engine()

    def once(self, key, fn):
        with self.lock:
            ent = self.cache.get(key)
            if ent is None:
                ent = self.cache[key] = {"ev": threading.Event(), "v": None, "own": threading.get_ident()}
                mine = True
            else:
                mine = False
        if mine:
            try:
                ent["v"] = fn()
            except BaseException as e:
                ent["v"] = e
            ent["ev"].set()
        ent["ev"].wait()
        if isinstance(ent["v"], BaseException):
            raise ent["v"]
        return ent["v"]

    def path(self, name):
        return os.path.join(self.tmp, name)

    def hfile(self, job):
        if job.text is not None:
            n = self.path("h_" + hashlib.sha256(job.text.encode()).hexdigest()[:16] + ".c")
            if not os.path.exists(n):
                with open(n + ".%d" % threading.get_ident(), "w") as f:
                    f.write(job.text)
                os.rename(f.name, n)
            return n
        return VERIF + "/harness/" + job.harness

    def sources(self, job):
        s = []
        for g in GROUPS[job.group]:
            s += sorted(glob.glob(REPO + "/" + g))
        for e in job.extra:
            s.append(e if e.startswith("/") else REPO + "/" + e)
        return s

    def one_bc(self, src, flags, ub):
        key = ("bc", src, tuple(flags), ub)

        def mk():
            out = self.path("b_" + hashlib.sha256(repr(key).encode()).hexdigest()[:16] + ".bc")
            san = ["-fsanitize=" + UB, "-fsanitize-trap=" + UB] if ub else []
            r = sh([CLANG] + BCF + san + INC + flags + [src, "-o", out])
            if r.returncode:
                raise RuntimeError("clang failed on %s:\n%s" % (src, r.stderr.decode()[-2000:]))
            return out
        return self.once(key, mk)

    def bc(self, job):
        h = self.hfile(job)
        srcs = self.sources(job)
        key = ("link", h, tuple(srcs), tuple(job.defs))

        def mk():
            parts = [self.one_bc(h, job.defs, False), self.one_bc(VERIF + "/rt/minilibc.c", ["-U_GNU_SOURCE", "-std=gnu99", "-U_DEFAULT_SOURCE", "-D_XOPEN_SOURCE=700"], False)] + [self.one_bc(s, job.defs, not s.startswith(VERIF)) for s in srcs]
            out = self.path("l_" + hashlib.sha256(repr(key).encode()).hexdigest()[:16] + ".bc")
            r = sh(["llvm-link-18"] + parts + ["-o", out])
            if r.returncode:
                raise RuntimeError("llvm-link failed: " + r.stderr.decode()[-2000:])
            return out
        return self.once(key, mk)

    def one_o(self, src, flags, san, cc):
        key = ("o", src, tuple(flags), san)

        def mk():
            out = self.path("o_" + hashlib.sha256(repr(key).encode()).hexdigest()[:16] + ".o")
            r = sh(cc + ["-g", "-w", "-c", "-ffp-contract=off", "-D_GNU_SOURCE", "-fno-strict-aliasing"] + INC + flags + [src, "-o", out])
            if r.returncode:
                raise RuntimeError("native build failed: " + r.stderr.decode()[-2000:])
            return out
        return self.once(key, mk)

    def native(self, job, san="asan"):
        h = self.hfile(job)
        srcs = self.sources(job)
        key = ("nat", h, tuple(srcs), tuple(job.defs), san)

        def mk():
            out = self.path("n_" + hashlib.sha256(repr(key).encode()).hexdigest()[:16])
            if san == "asan":
                cc, fl = "gcc", ["-O1", "-fsanitize=address," + UB, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
            elif san == "msan":
                cc, fl = CLANG, ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all"]
            else:
                cc, fl = "gcc", ["-O2"]
            objs = [self.one_o(x, job.defs if x != VERIF + "/rt/native.c" else [], san, [cc] + fl) for x in [h, VERIF + "/rt/native.c"] + srcs]
            r = sh([cc] + fl + objs + ["-o", out, "-lm"])
            if r.returncode:
                raise RuntimeError("native build failed: " + r.stderr.decode()[-2000:])
            return out
        return self.once(key, mk)

    def run_native(self, job, hexs, san="asan", timeout=20):
        exe = self.native(job, san)
        d = tempfile.mkdtemp(dir=self.tmp)
        inp = os.path.join(d, "input.bin")
        open(inp, "wb").write(bytes.fromhex(hexs))
        wd = os.path.join(d, "wd")
        os.mkdir(wd)
        log = os.path.join(d, "log")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_fill_byte=190:max_malloc_fill_size=4096", UBSAN_OPTIONS="exitcode=99:print_stacktrace=0", MSAN_OPTIONS="exitcode=99")
        with open(log, "wb") as lf:
            # fd 3 of the child carries the harness's own reports
            p = subprocess.Popen(["bash", "-c", 'exec "$@" 3>&1 >stdout.txt 2>stderr.txt', "x", exe, inp] + [str(x) for x in job.params], cwd=wd, stdout=lf, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=env)
            try:
                p.communicate(timeout=timeout)
                rc, err = p.returncode, open(wd + '/stderr.txt', 'rb').read()[-20000:]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                rc, err = "timeout", b""
        out = open(log, "rb").read().decode("latin1")
        shutil.rmtree(d, ignore_errors=True)
        notes = [tuple(l.split(" ")[1:3]) for l in out.splitlines() if l.startswith("NOTE ")]
        fails = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
        return {"rc": rc, "notes": notes, "fails": fails, "err": err.decode("latin1"), "ended": "END " in out}

    def run_engine(self, job, cap=None):
        bc = self.bc(job)
        out = tempfile.mktemp(dir=self.tmp, suffix=".json")
        tl = min(job.time, cap) if cap else job.time
        cmd = [self.csx, bc, "--out", out, "--time", str(tl), "--mem", str(job.mem), "--seed", str(self.seed)] + job.opts
        if job.steps:
            cmd += ["--max-steps", str(job.steps)]
        for p in job.params:
            cmd += ["--param", str(p)]
        try:
            r = sh(cmd, timeout=tl + 90)
            if r.returncode or not os.path.exists(out):
                return {"crash": r.stderr.decode("latin1")[-500:] or "rc %s" % r.returncode}
        except subprocess.TimeoutExpired:
            return {"crash": "engine timeout"}
        d = json.load(open(out))
        os.unlink(out)
        return d

    def confirm(self, job, e):
        """Replays one engine error natively; returns (confirmed, text)."""
        k = e["kind"]
        r = self.run_native(job, e["hex"])
        if k == "assert":
            ok = ("assert: " + e["msg"]) in r["fails"] or r["rc"] == 99
            if not ok and r["fails"]:
                ok = True
        elif k == "hang":
            ok = r["rc"] == "timeout"
        elif k == "uninit":
            ok = False
            try:
                m = self.run_native(job, e["hex"], "msan")
                ok = m["rc"] == 99 and "uninitialized" in m["err"]
                r = m
            except RuntimeError:
                pass
        elif k == "ro-write":
            ok = any("ro-write" in f for f in r["fails"]) or (isinstance(r["rc"], int) and r["rc"] < 0) or r["rc"] == 99 or "GLOBAL" in e.get("msg", "")
        else:
            ok = r["rc"] == 99 or (isinstance(r["rc"], int) and r["rc"] < 0) or bool(r["fails"])
            if not ok and k.startswith("oob"):   # far out-of-bounds accesses can miss ASan's redzones
                v = self.run_valgrind(job, e["hex"])
                ok = v
        m = re.search(r"(runtime error: [^\n]*|ERROR: AddressSanitizer[^\n]*)", r["err"])
        return ok, "rc=%s fails=%s %s" % (r["rc"], r["fails"][:2], m.group(1)[:160] if m else "")

    def run_valgrind(self, job, hexs):
        try:
            exe = self.native(job, "plain")
        except RuntimeError:
            return False
        d = tempfile.mkdtemp(dir=self.tmp)
        open(d + "/in", "wb").write(bytes.fromhex(hexs))
        try:
            r = sh(["bash", "-c", 'exec "$@" 3>/dev/null', "x", "valgrind", "-q", "--error-exitcode=99", "--redzone-size=4096", exe, d + "/in"] + [str(x) for x in job.params], cwd=d, timeout=120)
            rc = r.returncode
        except (subprocess.TimeoutExpired, FileNotFoundError):
            rc = 0
        shutil.rmtree(d, ignore_errors=True)
        return rc == 99 or rc < 0 or rc > 128

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def known(prop):
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) job=(\S+) kind=(\S+) msg=\"([^\"]*)\" :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def match_known(kn, job, e):
    for (jl, kind, msg, text) in kn:
        if re.fullmatch(jl, job.label) and re.fullmatch(kind, e["kind"]) and (msg in e["msg"] or msg in e["loc"] or msg in e["stack"]):
            return (jl, kind, msg, text)
    return None


def run_check(prop, title, jobs, tier, seed, assumptions=(), bounds="", budget=None, extra_cov=None, quiet=False):
    s = Session(prop, tier, seed)
    budget = budget or (780 if tier == "quick" else 3 * 3600)
    res = [None] * len(jobs)
    errors = []
    try:
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)

        def one(i):
            j = jobs[i]
            left = budget - (time.time() - s.t0)
            if left < 5:
                res[i] = {"skipped": True}
                return
            t1 = time.time()
            try:
                d = s.run_engine(j, cap=left)
            except RuntimeError as ex:
                res[i] = {"crash": str(ex)}
                return
            res[i] = d
            if "crash" in d:
                return
            if os.environ.get('CSX_V'):
                print('   %-40s paths=%d q=%d solver=%.1f wall=%.1f %s' % (j.label, d['paths'], d['queries'], d['solver_time_s'], time.time() - t1, '' if d['complete'] else d['incomplete_why']), flush=True)
            # translator validation: replay sampled path models on the native build
            ns = 0
            mism = []
            lim = 6 if tier == "quick" else 20
            try:
                for sm in d["samples"][:lim]:
                    r = s.run_native(j, sm["hex"])
                    ns += 1
                    want = [(k, str(v)) for k, v in sm["notes"]]
                    if r["rc"] != 0 or r["notes"] != want:
                        mism.append({"hex": sm["hex"][:200], "rc": r["rc"], "fails": r["fails"], "want": want[:12], "got": r["notes"][:12], "err": r["err"][:200]})
            except RuntimeError as ex:
                mism.append({"build": str(ex)[:300]})
            d["validated"], d["mismatch"] = ns, mism
            for e in d["errors"]:
                e["confirmed"], e["native"] = s.confirm(j, e)

        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, order))

        kn = known(prop)
        viol, unconf, hits = [], [], {}
        for j, d in zip(jobs, res):
            if d is None or "crash" in d or "skipped" in d:
                continue
            for e in d["errors"]:
                k = match_known(kn, j, e)
                if k:
                    hits[k] = hits.get(k, 0) + 1
                    continue
                (viol if e["confirmed"] else unconf).append((j, e))
            if d["complete"] and not d["errors"]:
                for lab in j.must:
                    if lab not in d["reach"]:
                        h = d["samples"][0]["hex"] if d["samples"] else ""
                        viol.append((j, {"kind": "unreachable", "msg": "no input reaches the required outcome '%s'" % lab, "loc": "-", "stack": "-", "hex": h, "inputs": [], "native": "", "confirmed": True}))
        crashed = [(j, d["crash"]) for j, d in zip(jobs, res) if d and "crash" in d]
        skipped = [j.label for j, d in zip(jobs, res) if d and "skipped" in d]
        for k in kn:
            if k in hits:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
        ok = [(j, d) for j, d in zip(jobs, res) if d and "paths" in d]
        fn = {}
        lines = {}
        for j, d in ok:
            for f, (a, b) in d["functions"].items():
                c = fn.setdefault(f, [0, b])
                c[0] = max(c[0], a)
            for f, l in d["lines"].items():
                lines.setdefault(f, set()).update(l)
        repofiles = {os.path.basename(x) for x in glob.glob(REPO + "/src/*/*.[ch]")}
        S = lambda k: sum(d[k] for _, d in ok)
        cov = {
            "states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": sum(d.get("validated", 0) for _, d in ok),
            "encoding_mismatches": sum(len(d.get("mismatch", [])) for _, d in ok),
            "exhaustive": bool(ok) and len(ok) == len(jobs) and all(d["complete"] for _, d in ok),
            "instances": len(jobs), "instances_complete": sum(1 for _, d in ok if d["complete"]), "instances_skipped": skipped[:40],
            "instances_incomplete": [{"label": j.label, "why": d["incomplete_why"], "paths": d["paths"]} for j, d in ok if not d["complete"]][:40],
            "bounds": bounds, "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "queries_fp": S("fp_queries"), "solver_time_s": round(S("solver_time_s"), 2),
            "path_forks": S("forks"), "functions_encoded": {f: "%d/%d IR instructions executed" % tuple(c) for f, c in sorted(fn.items()) if f.split(":")[0] in repofiles},
            "source_lines_executed": {f: len(l) for f, l in sorted(lines.items()) if f in repofiles},
            "reach": {}, "known_findings_hit": [k[3] for k in hits], "unconfirmed": [{"label": j.label, "kind": e["kind"], "msg": e["msg"], "loc": e["loc"], "hex": e["hex"][:200], "native": e["native"]} for j, e in unconf][:20],
            "unsupported": sorted({u for _, d in ok for u in d["unsupported"]})[:20],
            "samples": [{"instance": j.label, "model_hex": d["samples"][0]["hex"][:160], "notes": d["samples"][0]["notes"][:10], "reach": d["samples"][0]["reach"]} for j, d in ok if d["samples"]][:12],
        }
        rc = {}
        for _, d in ok:
            for k, v in d["reach"].items():
                rc[k] = rc.get(k, 0) + v
        cov["reach"] = rc
        cov.update(extra_cov or {})
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - s.t0, 1), "violations": len(viol)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
        if not quiet:
            print("%s [%s] instances=%d complete=%d paths=%d queries=%d solver=%.1fs validated=%d mismatches=%d wall=%.1fs" % (prop, tier, len(jobs), cov["instances_complete"], cov["states"], cov["queries"], cov["solver_time_s"], cov["traces_validated_against_impl"], cov["encoding_mismatches"], time.time() - s.t0))
            for x in cov["instances_incomplete"][:8]:
                print("  incomplete: %s %s paths=%d" % (x["label"], x["why"], x["paths"]))
            if skipped:
                print("  skipped (budget): %s" % skipped[:8])
            for j, d in ok:
                for m in d.get("mismatch", [])[:2]:
                    print("  encoding mismatch in %s: %s" % (j.label, json.dumps(m)[:400]))
            for j, e in unconf[:8]:
                print("  unconfirmed (not reported): %s %s '%s' at %s | %s" % (j.label, e["kind"], e["msg"], e["stack"][:200], e["native"]))
        shown = 0
        for j, e in viol:
            rp = VERIF + "/evidence/replay/%s-%d" % (prop, shown)
            shutil.rmtree(rp, ignore_errors=True)
            os.makedirs(rp)
            shutil.copy(s.hfile(j), rp + "/harness.c")
            open(rp + "/input.bin", "wb").write(bytes.fromhex(e["hex"]))
            json.dump({"property": prop, "instance": j.label, "params": j.params, "defs": j.defs, "kind": e["kind"], "msg": e["msg"], "stack": e["stack"], "inputs": e["inputs"], "native": e["native"]}, open(rp + "/info.json", "w"), indent=1)
            srcs = " ".join(s.sources(j))
            open(rp + "/replay.sh", "w").write("#!/bin/bash\n# builds the harness with the real sources and replays the counterexample\ncd \"$(dirname \"$0\")\" && T=$(mktemp -d) && gcc -g -w -O1 -ffp-contract=off -D_GNU_SOURCE -fsanitize=address,%s -fno-sanitize-recover=all %s %s harness.c %s/rt/native.c %s -o $T/r -lm && (I=$PWD/input.bin; cd $T && ASAN_OPTIONS=detect_leaks=0 ./r $I %s 3>&1); echo exit $?; rm -rf \"$T\"\n" % (UB, " ".join(INC), " ".join(j.defs), VERIF, srcs, " ".join(map(str, j.params))))
            if shown < 10:
                print("VIOLATION property=%s replay=%s" % (prop, rp))
                print("  %s: %s '%s' at %s | inputs %s | %s" % (j.label, e["kind"], e["msg"], e["stack"][:300], json.dumps(e["inputs"])[:300], e["native"]))
            shown += 1
            if shown >= 20:
                break
        for j, c in crashed[:4]:
            print("ENGINE-ERROR %s: %s" % (j.label, c[-600:]))
        if viol:
            return 1
        if crashed or not ok:
            return 2
        return 0
    finally:
        s.close()
