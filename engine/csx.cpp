// csx: path-exhaustive symbolic execution of LLVM IR (clang 18) with Z3.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <random>
#include <sys/resource.h>
#include <pthread.h>
#include <unistd.h>
using llvm::cast; using llvm::dyn_cast; using llvm::isa;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

struct Val { u64 c = 0; Expr* e = nullptr; };
static inline Val V(u64 c) { return Val{c, nullptr}; }
static inline Val V(Expr* e) { return isC(e) ? Val{e->c, nullptr} : Val{0, e}; }
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }

// ---- decoded program -----------------------------------------------------------------------------
enum Op : u8 { O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_BIN, O_ICMP, O_FCMP, O_FBIN, O_FNEG, O_TRUNC, O_ZEXT, O_SEXT, O_FUN, O_COPY, O_SELECT,
               O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_EXTRACTV, O_INSERTV, O_UNREACH, O_UNSUP };
struct Opnd { int32_t reg; u64 c; };
struct Move { int32_t dst; Opnd src; u8 w = 64; bool ptr = false; };
struct Edge { u32 target = 0; std::vector<Move> moves; };
struct Func;
struct CallInfo { const llvm::Function* fn = nullptr; Opnd callee{-1, 0}; std::vector<Opnd> args; std::vector<u8> w; std::vector<u64> byval; int builtin = -1; unsigned iid = 0; };
struct Instr {
  Op op; u8 w = 0, w2 = 0; bool visited = false; int32_t dst = -1; u32 n = 1; int sub = 0;
  Opnd a{-1, 0}, b{-1, 0}, d{-1, 0}; i64 imm = 0;
  std::vector<std::pair<Opnd, std::pair<i64, u8>>>* idx = nullptr;   // gep
  std::vector<Opnd>* ops = nullptr; std::vector<Edge>* edges = nullptr; std::vector<u64>* cases = nullptr;
  CallInfo* call = nullptr; const llvm::Instruction* I = nullptr;
};
struct Func { const llvm::Function* F; std::vector<Instr> code; int nregs = 0; std::vector<int> argReg; std::vector<u8> argN; };

// ---- memory --------------------------------------------------------------------------------------
enum ObjKind : u8 { OK_GLOBAL, OK_STACK, OK_HEAP, OK_FUNC, OK_ALIAS };
struct Object {
  u64 base = 0, size = 0; u32 slot = 0; ObjKind kind = OK_HEAP; bool ro = false, dead = false, harness = false;
  std::vector<u8> data; std::vector<Expr*> sym; std::vector<u8> un; u32 head = 0; const char* name = "";
};
struct Chunk { std::shared_ptr<Object> o[64]; };
static const u64 SLOT0 = 0x100; static const int SLOTB = 20; static const u64 MID = 0x40000;
struct Mem {
  std::vector<std::shared_ptr<Chunk>> ch; u32 n = 0; std::vector<u32> freeStack;
  Object* get(u64 addr) {
    u64 s = (addr >> SLOTB) - SLOT0; if (s >= n) return nullptr;
    Object* o = ch[s >> 6]->o[s & 63].get(); if (o && o->kind == OK_ALIAS) return bySlot(o->head); return o;
  }
  Object* bySlot(u32 s) { return ch[s >> 6]->o[s & 63].get(); }
  Object* wr(Object* o) {
    auto& c = ch[o->slot >> 6]; if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto& p = c->o[o->slot & 63]; if (p.use_count() > 1) p = std::make_shared<Object>(*p);
    return p.get();
  }
  void put(u32 s, std::shared_ptr<Object> o) {
    while ((s >> 6) >= ch.size()) ch.push_back(std::make_shared<Chunk>());
    auto& c = ch[s >> 6]; if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    c->o[s & 63] = o; if (s >= n) n = s + 1;
  }
  Object* alloc(u64 size, ObjKind k, const char* name) {
    u32 k1 = 1 + (u32)((size + 0x80000) >> SLOTB); u32 s;
    if (k == OK_STACK && k1 == 1 && !freeStack.empty()) { s = freeStack.back(); freeStack.pop_back(); }
    else s = n;
    auto o = std::make_shared<Object>(); o->slot = s; o->size = size; o->kind = k; o->name = name; o->base = ((SLOT0 + s) << SLOTB) + MID; o->data.assign(size, 0);
    put(s, o);
    for (u32 i = 1; i < k1; i++) { auto al = std::make_shared<Object>(); al->kind = OK_ALIAS; al->head = s; al->slot = s + i; put(s + i, al); }
    return o.get();
  }
};

struct Frame { Func* f; u32 pc; std::vector<Val> r; std::vector<u32> allocas; const Instr* callI = nullptr; std::vector<Val> va; };
struct Input { std::string name; std::vector<Expr*> b; };
struct State {
  std::vector<Frame> st; Mem mem; std::vector<Expr*> pc; Model m; std::unordered_map<u32, u8> fixed;
  std::vector<Input> in; std::vector<std::pair<std::string, Val>> notes; std::vector<std::string> reach;
  u32 nsym = 0, nun = 0; u64 steps = 0; u32 depth = 0; int errno_ = 0;
};
struct PathEnd { int why; };   // thrown to end a path: 0 done, 1 error, 2 assume, 3 unsupported, 4 limit
struct Retry {};               // re-execute the current instruction

// ---- globals -------------------------------------------------------------------------------------
static llvm::Module* M; static const llvm::DataLayout* DL; static Solver S;
static std::unordered_map<const llvm::Value*, u64> gaddr; static std::unordered_map<u64, const llvm::Function*> faddr;
static std::unordered_map<const llvm::Function*, Func*> funcs;
static std::vector<State*> work; static State* cur;
static double deadline = 1e18, tstart; static u64 maxSteps = 20000000, memMB = 3000; static u64 nInstr = 0, nPaths = 0, nForks = 0, nErrPaths = 0, nAssume = 0;
static u64 maxPaths = ~0ull; static unsigned muxLimit = 512; static bool incomplete = false; static std::set<std::string> incWhy;
static std::vector<u64> params; static std::map<std::string, u64> reachN; static u64 maxErr = 20; static bool checkUninit = true; static bool hangError = false;
static std::mt19937_64 rng(1); static bool mixSearch = false; static u64 nSamples = 40; static u64 dropped = 0;
struct Err { std::string kind, msg, loc, stack, hex; std::vector<std::pair<std::string, std::string>> in; };
static std::vector<Err> errs; static std::map<std::string, int> errSeen;
struct Samp { std::string hex; std::vector<std::pair<std::string, u64>> notes; std::vector<std::string> reach; std::string end; };
static std::vector<Samp> samps; static u64 sampSeen = 0;
static std::map<std::string, u64> unsup;

static std::string locOf(const llvm::Instruction* I) {
  if (!I) return "?";
  const llvm::DILocation* L = I->getDebugLoc(); if (!L) return "?";
  std::string f = L->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
  std::string fn = "?"; if (auto* sp = L->getScope()->getSubprogram()) fn = sp->getName().str();
  return f + ":" + std::to_string(L->getLine()) + ":" + fn;
}
static std::string locFull(const llvm::Instruction* I) {
  std::string r = locOf(I); const llvm::DILocation* L = I ? I->getDebugLoc().get() : nullptr;
  if (L) for (L = L->getInlinedAt(); L; L = L->getInlinedAt()) { std::string f = L->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); r += " <- " + f + ":" + std::to_string(L->getLine()) + ":" + (L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : ""); }
  return r;
}
static std::string stackOf(State& s) { std::string r; for (int i = (int)s.st.size() - 1; i >= 0; i--) { Frame& f = s.st[i]; if (f.pc < f.f->code.size()) { if (!r.empty()) r += " <- "; r += locFull(f.f->code[f.pc].I); } } return r; }
static std::string hexOf(State& s, const Model& m, std::vector<std::pair<std::string, std::string>>* per = nullptr) {
  std::string h; char b[4];
  for (auto& i : s.in) { std::string t; for (Expr* e : i.b) { snprintf(b, 4, "%02x", (unsigned)evalE(e, m) & 255); t += b; } h += t; if (per) per->push_back({i.name, t}); }
  return h;
}
static void report(State& s, const Model& m, const std::string& kind, const std::string& msg) {
  const llvm::Instruction* I = s.st.empty() ? nullptr : s.st.back().f->code[s.st.back().pc].I;
  std::string loc = locOf(I), key = kind + "|" + msg + "|" + loc;
  if (errSeen[key]++ >= 3 || errs.size() >= maxErr) return;
  Err e; e.kind = kind; e.msg = msg; e.loc = loc; e.stack = stackOf(s); e.hex = hexOf(s, m, &e.in); errs.push_back(e);
}
static void inc(const std::string& w) { incomplete = true; incWhy.insert(w); }
[[noreturn]] static void unsupported(State& s, const std::string& w) { unsup[w + " @ " + stackOf(s)]++; inc("unsupported: " + w); throw PathEnd{3}; }
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) { report(s, s.m, kind, msg); throw PathEnd{1}; }

// ---- constraints & forking -------------------------------------------------------------------------
static void addC(State& s, Expr* e) {
  if (isC(e)) return;
  if (e->w == 1 && e->k == K_AND) { addC(s, e->a); addC(s, e->b); return; }
  if (isNot(e) && e->a->k == K_OR) { addC(s, mkNot(e->a->a)); addC(s, mkNot(e->a->b)); return; }
  if (e->k == K_EQ && isC(e->b)) {
    Expr* a = e->a; u64 c = e->b->c;
    if (a->k == K_CONCAT) { addC(s, mkBin(K_EQ, a->a, mkC(c >> a->b->w, a->a->w))); addC(s, mkBin(K_EQ, a->b, mkC(c, a->b->w))); return; }
    if (a->k == K_SYM) s.fixed[(u32)a->c] = (u8)c;
  }
  s.pc.push_back(e);
}
static State* forkState(State& s, Expr* cond, const Model& m) {
  State* n = new State(s); n->m = m; addC(*n, cond); n->depth++; nForks++; work.push_back(n); return n;
}
// Is cond feasible? fills m with a model
static int feas(State& s, Expr* cond, Model& m) {
  m = s.m; if (isC(cond)) return cond->c ? 1 : 0;
  if (evalE(cond, s.m)) return 1;
  int r = S.check(s.pc, cond, m); if (r < 0) inc("solver timeout/unknown"); return r;
}
static bool hasUninit(Expr* e) { for (u32 x : support(e)) if (x & 1) return true; return false; }
static void uninitCheck(State& s, Expr* cond, const char* what) {
  if (!checkUninit || !hasUninit(cond)) return;
  std::vector<Expr*> fix; bool v = evalE(cond, s.m);
  for (u32 x : support(cond)) if (!(x & 1)) fix.push_back(mkBin(K_EQ, mkRaw(K_SYM, 8, 0, x, 0, 0, 0), mkC(x < s.m.size() ? s.m[x] : 0, 8)));
  Model m = s.m; if (S.check(fix, v ? mkNot(cond) : cond, m) == 1) fail(s, "uninit", what);
}
static bool g_sites = false, g_forkReads = false; static std::map<std::string, u64> siteN;
// decide a symbolic boolean; forks the other side
static bool decide(State& s, Expr* cond) {
  if (isC(cond)) return cond->c;
  uninitCheck(s, cond, "branch depends on uninitialised memory");
  bool v = evalE(cond, s.m); Expr* other = v ? mkNot(cond) : cond; Model m;
  int r = feas(s, other, m);
  if (r == 1) { if (g_sites) { Frame& f = s.st.back(); siteN[locOf(f.f->code[f.pc].I)]++; } forkState(s, other, m); }
  if (r != 0) addC(s, v ? cond : mkNot(cond));
  return v;
}
static u64 concretize(State& s, Expr* e) {   // current path takes the model value; other values are forked (re-executing the instruction)
  if (isC(e)) return e->c;
  u64 v = evalE(e, s.m); Expr* eq = mkBin(K_EQ, e, mkC(v, e->w)); Model m;
  uninitCheck(s, eq, "value used depends on uninitialised memory");
  int r = feas(s, mkNot(eq), m);
  if (r == 1) forkState(s, mkNot(eq), m);
  if (r != 0) addC(s, eq);
  return v;
}
static u64 conc(State& s, const Val& v) { return v.e ? concretize(s, v.e) : v.c; }

// ---- memory access -----------------------------------------------------------------------------------
static Expr* byteAt(State& s, Object* o, u64 off) {
  if (!o->un.empty() && o->un[off]) {
    o = s.mem.wr(o); if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    u32 id = 2 * s.nun++ + 1; o->sym[off] = mkRaw(K_SYM, 8, 0, id, 0, 0, 0); o->un[off] = 0; return o->sym[off];
  }
  if (!o->sym.empty() && o->sym[off]) {
    Expr* e = o->sym[off];
    if (e->k == K_SYM) { auto it = s.fixed.find((u32)e->c); if (it != s.fixed.end()) return mkC(it->second, 8); }
    return e;
  }
  return mkC(o->data[off], 8);
}
static std::unordered_map<Expr*, std::vector<Expr*>> g_origin;   // first symbolic byte -> values stored with it
static Val readAt(State& s, Object* o, u64 off, unsigned n) {
  bool c = true;
  if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { c = false; break; }
  if (c && !o->un.empty()) for (unsigned i = 0; i < n; i++) if (o->un[off + i]) { c = false; break; }
  if (c) { u64 v = 0; memcpy(&v, &o->data[off], n); return V(v); }
  Expr* r = nullptr; u32 slot = o->slot; Expr* bs[8]; bool whole = false;
  for (unsigned i = 0; i < n; i++) bs[i] = byteAt(s, s.mem.bySlot(slot), off + i);
  if (n > 1) for (unsigned i = 0; i < n; i++) if (!isC(bs[i])) {      // the bytes of one value stored earlier, maybe copied: give that value back as it was
    auto it = g_origin.find(bs[i]);
    if (it != g_origin.end()) for (Expr* x : it->second) { if (x->w != 8 * n) continue; bool same = true; for (unsigned j = 0; j < n && same; j++) same = mkExtract(x, 8 * j, 8) == bs[j]; if (same) { r = x; whole = true; break; } }
    break; }
  if (!whole) for (unsigned i = 0; i < n; i++) r = r ? mkConcat(bs[i], r) : bs[i];
  if (!isC(r) && !s.fixed.empty()) { bool all = true; auto& su = support(r); if (su.size() > 16) all = false; for (u32 x : su) if (!all || !s.fixed.count(x)) { all = false; break; } if (all) { Model t = s.m; return V(evalE(r, t)); } }
  return V(r);
}
static void writeAt(State& s, Object* o, u64 off, unsigned n, const Val& v) {   // o already writable
  if (!o->un.empty()) for (unsigned i = 0; i < n; i++) o->un[off + i] = 0;
  if (!v.e) { memcpy(&o->data[off], &v.c, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  if (n > 1 && v.e->w == 8 * n && v.e->k != K_CONCAT && v.e->k != K_SYM) for (unsigned i = 0; i < n; i++) { Expr* b = mkExtract(v.e, 8 * i, 8); if (isC(b)) continue; auto& l = g_origin[b]; if (l.empty() || l[0] != v.e) { l.insert(l.begin(), v.e); if (l.size() > 4) l.pop_back(); } break; }
  for (unsigned i = 0; i < n; i++) { Expr* b = mkExtract(v.e, 8 * i, 8); if (isC(b)) { o->data[off + i] = (u8)b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
}
static std::string objDesc(Object* o) { static const char* kn[] = {"global", "stack", "heap", "function", "alias"}; return std::string(kn[o->kind]) + " object '" + o->name + "' of " + std::to_string(o->size) + " bytes"; }

// Resolves an access of n bytes. On return *off is the concrete offset, or offE non-null the symbolic one (in bounds on this path).
static Object* resolve(State& s, const Val& p, u64 n, bool wr, u64* off, Expr** offE) {
  *offE = nullptr; const char* rw = wr ? "write" : "read";
  if (!p.e) {
    Object* o = s.mem.get(p.c);
    if (!o || o->kind == OK_FUNC) { if (n == 0) { *off = 0; return o; } fail(s, p.c < 65536 ? "null-deref" : "wild-pointer", std::string(rw) + " through invalid pointer"); }
    if (o->dead) fail(s, "use-after-free", std::string(rw) + " of freed " + objDesc(o));
    u64 d = p.c - o->base;
    if (d > o->size || n > o->size - d) fail(s, wr ? "oob-write" : "oob-read", std::string(rw) + " of " + std::to_string(n) + " bytes outside " + objDesc(o));
    if (wr && o->ro) fail(s, "ro-write", "write to read-only " + objDesc(o));
    *off = d; return o;
  }
  Expr* e = p.e; Object* o = nullptr;
  if (e->k == K_ADD && isC(e->b)) { o = s.mem.get(e->b->c); if (o && (o->kind == OK_FUNC)) o = nullptr; }
  bool prov = o != nullptr;
  if (!o) { u64 v = evalE(e, s.m); o = s.mem.get(v); if (!o || o->kind == OK_FUNC) fail(s, v < 65536 ? "null-deref" : "wild-pointer", std::string(rw) + " through invalid pointer"); }
  if (o->dead) fail(s, "use-after-free", std::string(rw) + " of freed " + objDesc(o));
  Expr* oe = mkBin(K_SUB, e, mkC(o->base, 64));
  Expr* ok = n <= o->size ? mkBin(K_ULE, oe, mkC(o->size - n, 64)) : mkC(0, 1);
  Model m; Expr* bad = mkNot(ok);
  int r = feas(s, bad, m);
  if (r != 0) {
    if (r == 1) {
      if (prov) { report(s, m, wr ? "oob-write" : "oob-read", std::string(rw) + " of " + std::to_string(n) + " bytes outside " + objDesc(o)); nErrPaths++; }
      else forkState(s, bad, m);
    }
    Model m2; int r2 = feas(s, ok, m2);
    if (r2 != 1) throw PathEnd{1};
    s.m = m2; addC(s, ok);
  }
  if (wr && o->ro) fail(s, "ro-write", "write to read-only " + objDesc(o));
  if (isC(oe)) { *off = oe->c; return o; }
  *offE = oe; return o;
}
static void offRange(Expr* e, u64* max, unsigned* tz) {   // structural upper bound and known trailing zeros
  switch (e->k) {
    case K_ZEXT: offRange(e->a, max, tz); if (*max > maskw(e->a->w)) *max = maskw(e->a->w); return;
    case K_CONCAT: { u64 m1; unsigned t1; if (isC(e->b, 0)) { offRange(e->a, &m1, &t1); *max = (m1 << e->b->w); *tz = t1 + e->b->w; return; } *max = maskw(e->w); *tz = 0; return; }
    case K_ADD: { u64 m1, m2; unsigned t1, t2; offRange(e->a, &m1, &t1); if (isC(e->b)) { m2 = e->b->c; t2 = e->b->c ? __builtin_ctzll(e->b->c) : 64; } else offRange(e->b, &m2, &t2);
      *tz = std::min(t1, t2); *max = (m1 + m2 < m1) ? ~0ull : m1 + m2; return; }
    case K_CONST: *max = e->c; *tz = e->c ? __builtin_ctzll(e->c) : 63; return;
    default: *max = maskw(e->w); *tz = 0; return;
  }
}
static Expr* muxTree(State& s, Object* o, Expr* off, u64 lo, unsigned bit, unsigned tz, u64 last, unsigned n) {
  // value at offset off where off's bits above 'bit' equal those of lo
  if (lo > last) return nullptr;
  if (bit < tz || bit == (unsigned)-1) { Val v = readAt(s, s.mem.bySlot(o->slot), lo, n); return X(v, 8 * n); }
  Expr* l = muxTree(s, o, off, lo, bit - 1, tz, last, n);
  Expr* h = muxTree(s, o, off, lo | (1ull << bit), bit - 1, tz, last, n);
  if (!h) return l; if (!l) return h; if (l == h) return l;
  return mkIte(mkExtract(off, bit, 1), h, l);
}
static Val loadMem(State& s, const Val& p, unsigned n) {
  u64 off; Expr* oe; Object* o = resolve(s, p, n, false, &off, &oe);
  if (!oe) return readAt(s, o, off, n);
  u64 mx; unsigned tz; offRange(oe, &mx, &tz); u64 last = std::min(mx, o->size - n);
  if ((last >> std::min(tz, 63u)) <= muxLimit) {
    unsigned top = 0; while ((last >> top) > 1) top++;
    bool konst = g_forkReads || o->kind == OK_HEAP; if (konst) for (u64 q = 0; q < last + n && konst; q++) konst = (o->sym.empty() || !o->sym[q]) && (o->un.empty() || !o->un[q]);
    Expr* r = muxTree(s, o, oe, 0, last ? top : (unsigned)-1, tz, last, n); if (konst && !isC(r)) return V(concretize(s, r)); return V(r);
  }
  off = concretize(s, oe); return readAt(s, s.mem.bySlot(o->slot), off, n);
}
static void storeMem(State& s, const Val& p, unsigned n, const Val& v) {
  u64 off; Expr* oe; Object* o = resolve(s, p, n, true, &off, &oe);
  if (!oe) { writeAt(s, s.mem.wr(o), off, n, v); return; }
  u64 mx; unsigned tz; offRange(oe, &mx, &tz); u64 last = std::min(mx, o->size - n);
  if ((last >> std::min(tz, 63u)) <= muxLimit) {
    o = s.mem.wr(o); u32 slot = o->slot; Expr* ve = X(v, 8 * n); u64 step = 1ull << std::min(tz, 12u);
    std::vector<Expr*> nb(std::min<u64>(o->size, last + n), nullptr);
    for (u64 q = 0; q <= last; q += step) { Expr* hit = mkBin(K_EQ, oe, mkC(q, 64)); if (isC(hit, 0)) continue;
      for (unsigned i = 0; i < n; i++) { if (!nb[q + i]) nb[q + i] = byteAt(s, s.mem.bySlot(slot), q + i); nb[q + i] = mkIte(hit, mkExtract(ve, 8 * i, 8), nb[q + i]); } }
    o = s.mem.wr(s.mem.bySlot(slot));
    for (u64 i = 0; i < nb.size(); i++) if (nb[i]) writeAt(s, o, i, 1, V(nb[i]));
    return;
  }
  off = concretize(s, oe); writeAt(s, s.mem.wr(s.mem.bySlot(o->slot)), off, n, v);
}
static void copyMem(State& s, const Val& d, const Val& sv, u64 n, bool move) {
  if (!n) return;
  if ((d.e || sv.e) && n <= 64) {
    std::vector<Val> t; for (u64 i = 0; i < n; i++) t.push_back(loadMem(s, sv.e ? V(mkBin(K_ADD, sv.e, mkC(i, 64))) : V(sv.c + i), 1));
    for (u64 i = 0; i < n; i++) storeMem(s, d.e ? V(mkBin(K_ADD, d.e, mkC(i, 64))) : V(d.c + i), 1, t[i]);
    return;
  }
  u64 so, dof; Expr* oe; Object* a = resolve(s, sv, n, false, &so, &oe); if (oe) so = concretize(s, oe);
  Object* b = resolve(s, d, n, true, &dof, &oe); if (oe) dof = concretize(s, oe);
  if (!move && a->slot == b->slot && so != dof && so < dof + n && dof < so + n) fail(s, "memcpy-overlap", "memcpy with overlapping ranges");
  a = s.mem.bySlot(a->slot); b = s.mem.wr(s.mem.bySlot(b->slot)); a = s.mem.bySlot(a->slot);
  std::vector<u8> dt(a->data.begin() + so, a->data.begin() + so + n), un; std::vector<Expr*> sy;
  if (!a->sym.empty()) sy.assign(a->sym.begin() + so, a->sym.begin() + so + n);
  if (!a->un.empty()) un.assign(a->un.begin() + so, a->un.begin() + so + n);
  memcpy(&b->data[dof], dt.data(), n);
  bool any = false; for (Expr* e : sy) if (e) any = true;
  if (any && b->sym.empty()) b->sym.assign(b->size, nullptr);
  if (!b->sym.empty()) for (u64 i = 0; i < n; i++) b->sym[dof + i] = any ? sy[i] : nullptr;
  any = false; for (u8 x : un) any |= x;
  if (any && b->un.empty()) b->un.assign(b->size, 0);
  if (!b->un.empty()) for (u64 i = 0; i < n; i++) b->un[dof + i] = any ? un[i] : 0;
}
static void setMem(State& s, const Val& d, const Val& v, u64 n) {
  if (!n) return;
  u64 off; Expr* oe; Object* o = resolve(s, d, n, true, &off, &oe); if (oe) off = concretize(s, oe);
  o = s.mem.wr(s.mem.bySlot(o->slot));
  if (!v.e) { memset(&o->data[off], (int)v.c, n); if (!o->sym.empty()) std::fill(o->sym.begin() + off, o->sym.begin() + off + n, nullptr); if (!o->un.empty()) std::fill(o->un.begin() + off, o->un.begin() + off + n, 0); }
  else { Val b = V(mkExtract(v.e, 0, 8)); for (u64 i = 0; i < n; i++) writeAt(s, o, off + i, 1, b); }
}
static std::string cstr(State& s, u64 a, size_t max = 4096) {
  std::string r; Object* o = s.mem.get(a); if (!o) return r;
  for (u64 i = a - o->base; i < o->size && r.size() < max; i++) { u64 v = evalE(byteAt(s, s.mem.bySlot(o->slot), i), s.m); if (!v) break; r += (char)v; }
  return r;
}

#include "decode.h"
#include "builtins.h"

// ---- interpreter ---------------------------------------------------------------------------------------
static inline Val rd(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.r[o.reg] : V(o.c); }
static void takeEdge(State& s, Edge& e) {
  Frame& f = s.st.back(); size_t n = e.moves.size();
  if (n == 1) { f.r[e.moves[0].dst] = rd(f, e.moves[0].src); }
  else if (n) { Val t[64]; std::vector<Val> tv; Val* p = t; if (n > 64) { tv.resize(n); p = tv.data(); }
    for (size_t i = 0; i < n; i++) p[i] = rd(f, e.moves[i].src); for (size_t i = 0; i < n; i++) f.r[e.moves[i].dst] = p[i]; }
  f.pc = e.target;
}
static Val binop(State& s, const Instr& I, Val a, Val b) {
  K k = (K)I.sub; unsigned w = I.w;
  if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
    if (!b.e && !b.c) fail(s, "div-zero", "division by zero");
    if (b.e) {
      Expr* z = mkBin(K_EQ, b.e, mkC(0, w)); Model m; int r = feas(s, z, m);
      if (r == 1) { report(s, m, "div-zero", "division by zero"); nErrPaths++; Expr* nz = mkNot(z); Model m2; if (feas(s, nz, m2) != 1) throw PathEnd{1}; s.m = m2; addC(s, nz); }
    }
    if (k == K_SDIV || k == K_SREM) {
      Expr* ov = mkBin(K_AND, mkBin(K_EQ, X(a, w), mkC(1ull << (w - 1), w)), mkBin(K_EQ, X(b, w), mkC(~0ull, w))); Model m;
      if (w >= 32) { int r = feas(s, ov, m); if (r == 1) { report(s, m, "div-overflow", "INT_MIN / -1"); nErrPaths++; Expr* nz = mkNot(ov); Model m2; if (feas(s, nz, m2) != 1) throw PathEnd{1}; s.m = m2; addC(s, nz); } }
    }
  }
  if (!a.e && !b.e) return V(cbin(k, w, a.c, b.c));
  return V(mkBin(k, X(a, w), X(b, w)));
}
static void doRet(State& s, const Instr& I) {
  Frame& f = s.st.back(); Val rv[16]; u32 n = 0;
  if (I.ops) for (auto& o : *I.ops) { if (n >= 16) unsupported(s, "large return aggregate"); rv[n++] = rd(f, o); }
  for (u32 sl : f.allocas) { Object* o = s.mem.bySlot(sl); o = s.mem.wr(o); o->dead = true; o->data.clear(); o->data.shrink_to_fit(); o->sym.clear(); o->un.clear(); o->size = 0; s.mem.freeStack.push_back(sl); }
  s.st.pop_back();
  if (s.st.empty()) throw PathEnd{0};
  Frame& p = s.st.back(); const Instr& C = p.f->code[p.pc];
  if (C.dst >= 0) for (u32 i = 0; i < n; i++) p.r[C.dst + i] = rv[i];
  if (C.edges) takeEdge(s, (*C.edges)[0]); else p.pc++;
}
static void pushCall(State& s, const llvm::Function* F, const Instr& I) {
  CallInfo& ci = *I.call; Func* g = getFunc(F); Frame nf; nf.f = g; nf.pc = 0; nf.r.resize(g->nregs); nf.callI = &I;
  Frame& f = s.st.back(); if (s.st.size() > 4000) fail(s, "stack-overflow", "call depth > 4000");
  size_t ai = 0, na = g->argReg.size();
  for (size_t i = 0; i < ci.args.size(); i++) {
    Val v = rd(f, ci.args[i]);
    if (ci.byval[i]) { Object* o = s.mem.alloc(ci.byval[i], OK_STACK, "byval"); u64 b = o->base; nf.allocas.push_back(o->slot); copyMem(s, V(b), v, ci.byval[i], false); v = V(b); }
    if (ai < na) nf.r[g->argReg[ai]] = v; else if (F->isVarArg()) nf.va.push_back(v);
    ai++;
  }
  s.st.push_back(std::move(nf));
}
static void step(State& s);
// ---- merging of small side-effect-free branches -------------------------------------------------------
// Runs one side of a branch without effects, following concrete branches forward; stops at block start `stop` (or, with stop 0,
// collects the block starts passed). Returns the last edge taken, or null when something not mergeable is met.
static bool g_merge = true;
static Edge* specRun(State& s, Edge* e, u32 from, u32 stop, std::vector<u32>* seen) {
  Frame& f = s.st.back(); takeEdge(s, *e);
  for (int budget = 48;;) {
    if (f.pc <= from) return nullptr;
    if (seen) seen->push_back(f.pc); else if (f.pc == stop) return e;
    for (;;) {
      if (--budget < 0) return seen ? e : nullptr;
      Instr& I = f.f->code[f.pc];
      switch (I.op) {
        case O_LOAD: { Val p = rd(f, I.a); if (p.e) return seen ? e : nullptr; Object* o = s.mem.get(p.c); if (!o || o->kind == OK_FUNC || o->dead) return seen ? e : nullptr; u64 d = p.c - o->base; if (d > o->size || I.n > o->size - d) return seen ? e : nullptr;
          if (!o->un.empty()) for (unsigned i = 0; i < I.n; i++) if (o->un[d + i]) return seen ? e : nullptr; break; }
        case O_BIN: { K k = (K)I.sub; if ((k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) && (rd(f, I.b).e || !rd(f, I.b).c || rd(f, I.b).c == maskw(I.w))) return seen ? e : nullptr; break; }
        case O_GEP: case O_ICMP: case O_TRUNC: case O_ZEXT: case O_SEXT: case O_COPY: case O_SELECT: case O_EXTRACTV: case O_INSERTV: break;
        case O_BR: break;
        case O_CBR: if (rd(f, I.a).e) return seen ? e : nullptr; break;
        default: return seen ? e : nullptr;
      }
      if (I.op == O_BR || I.op == O_CBR) { I.visited = true; size_t t = I.op == O_BR ? 0 : (rd(f, I.a).c & 1 ? 0 : 1); e = &(*I.edges)[t]; takeEdge(s, *e); break; }
      step(s);
    }
  }
}
static bool tryMerge(State& s, Expr* c, Instr& I) {
  Frame& f = s.st.back(); u32 pc0 = f.pc; std::vector<Val> save = f.r; Edge *eT = &(*I.edges)[0], *eF = &(*I.edges)[1];
  auto restore = [&]() { f.r = save; f.pc = pc0; };
  std::vector<u32> a, b; specRun(s, eT, pc0, 0, &a); restore(); specRun(s, eF, pc0, 0, &b); restore();
  u32 J = 0; for (u32 x : a) { for (u32 y : b) if (x == y) { J = x; break; } if (J) break; }
  if (!J) return false;
  Edge* la = specRun(s, eT, pc0, J, nullptr); if (!la) { restore(); return false; }
  std::vector<Val> ra; for (auto& m : la->moves) ra.push_back(f.r[m.dst]); restore();
  Edge* lb = specRun(s, eF, pc0, J, nullptr); if (!lb || lb->moves.size() != la->moves.size()) { restore(); return false; }
  std::vector<Val> rb; for (auto& m : lb->moves) rb.push_back(f.r[m.dst]); restore();
  for (size_t i = 0; i < ra.size(); i++) {
    if (la->moves[i].dst != lb->moves[i].dst) return false;
    bool same = ra[i].e == rb[i].e && (ra[i].e || ra[i].c == rb[i].c); if (!same && la->moves[i].ptr) return false;
  }
  uninitCheck(s, c, "branch depends on uninitialised memory");
  for (size_t i = 0; i < ra.size(); i++) { bool same = ra[i].e == rb[i].e && (ra[i].e || ra[i].c == rb[i].c); unsigned w = la->moves[i].w; f.r[la->moves[i].dst] = same ? ra[i] : V(mkIte(c, X(ra[i], w), X(rb[i], w))); }
  f.pc = J; return true;
}
static void step(State& s) {
  Frame* f = &s.st.back(); Instr& I = f->f->code[f->pc]; I.visited = true; nInstr++; s.steps++;
  switch (I.op) {
    case O_LOAD: {
      Val p = rd(*f, I.a); Val v = loadMem(s, p, I.n); f = &s.st.back();
      if (I.w < 8 * I.n) { if (v.e) v = V(mkExtract(v.e, 0, I.w)); else v.c &= maskw(I.w); }
      f->r[I.dst] = v; f->pc++; break; }
    case O_STORE: {
      Val p = rd(*f, I.a), v = rd(*f, I.b);
      if (v.e && v.e->w < 8 * I.n) v = V(mkZext(v.e, 8 * I.n));
      storeMem(s, p, I.n, v); s.st.back().pc++; break; }
    case O_GEP: {
      Val b = rd(*f, I.a); b = b.e ? (I.imm ? V(mkBin(K_ADD, b.e, mkC((u64)I.imm, 64))) : b) : V(b.c + (u64)I.imm);
      if (I.idx) for (auto& ix : *I.idx) {
        Val v = rd(*f, ix.first); unsigned w = ix.second.second; u64 sc = (u64)ix.second.first;
        if (!v.e) { u64 t = (u64)sx(v.c, w) * sc; b = b.e ? V(mkBin(K_ADD, b.e, mkC(t, 64))) : V(b.c + t); }
        else { Expr* t = mkBin(K_MUL, w < 64 ? mkSext(v.e, 64) : v.e, mkC(sc, 64)); b = V(mkBin(K_ADD, t, X(b, 64))); }
      }
      f->r[I.dst] = b; f->pc++; break; }
    case O_BIN: { Val r = binop(s, I, rd(*f, I.a), rd(*f, I.b)); f->r[I.dst] = r; f->pc++; break; }
    case O_ICMP: {
      Val a = rd(*f, I.a), b = rd(*f, I.b); unsigned w = I.w2; bool neg = I.imm & 1, swp = I.imm & 2; if (swp) std::swap(a, b);
      if (!a.e && !b.e) f->r[I.dst] = V((cbin((K)I.sub, w, a.c, b.c) & 1) ^ (u64)neg);
      else { Expr* e = mkBin((K)I.sub, X(a, w), X(b, w)); f->r[I.dst] = V(neg ? mkNot(e) : e); }
      f->pc++; break; }
    case O_FCMP: { Val a = rd(*f, I.a), b = rd(*f, I.b); Expr* e = fcmpE(I.sub, X(a, I.w2), X(b, I.w2)); f->r[I.dst] = V(e); f->pc++; break; }
    case O_FBIN: {
      Val a = rd(*f, I.a), b = rd(*f, I.b);
      if (!a.e && !b.e) f->r[I.dst] = V(fop((K)I.sub, I.w, a.c, b.c));
      else { if ((K)I.sub == K_FREM) unsupported(s, "symbolic frem"); f->r[I.dst] = V(mkBin((K)I.sub, X(a, I.w), X(b, I.w))); }
      f->pc++; break; }
    case O_FNEG: { Val a = rd(*f, I.a); u64 sb = 1ull << (I.w - 1); f->r[I.dst] = a.e ? V(mkBin(K_XOR, a.e, mkC(sb, I.w))) : V(a.c ^ sb); f->pc++; break; }
    case O_TRUNC: { Val a = rd(*f, I.a); f->r[I.dst] = a.e ? V(mkExtract(a.e, 0, I.w)) : V(a.c & maskw(I.w)); f->pc++; break; }
    case O_ZEXT: { Val a = rd(*f, I.a); f->r[I.dst] = a.e ? V(mkZext(a.e, I.w)) : a; f->pc++; break; }
    case O_SEXT: { Val a = rd(*f, I.a); f->r[I.dst] = a.e ? V(mkSext(a.e, I.w)) : V((u64)sx(a.c, I.w2) & maskw(I.w)); f->pc++; break; }
    case O_FUN: { Val a = rd(*f, I.a); f->r[I.dst] = V(mkUn((K)I.sub, X(a, I.w2), I.w, (unsigned)I.imm)); f->pc++; break; }
    case O_COPY: { for (u32 i = 0; i < I.n; i++) f->r[I.dst + i] = rd(*f, (*I.ops)[i]); f->pc++; break; }
    case O_SELECT: {
      Val c = rd(*f, I.d);
      for (u32 i = 0; i < I.n; i++) {
        const Opnd& ta = (*I.ops)[2 * i]; const Opnd& fa = (*I.ops)[2 * i + 1]; unsigned w = (*I.cases)[i];
        f->r[I.dst + i] = !c.e ? rd(*f, c.c ? ta : fa) : V(mkIte(c.e, X(rd(*f, ta), w), X(rd(*f, fa), w)));
      }
      f->pc++; break; }
    case O_EXTRACTV: case O_INSERTV: { std::vector<Val> t; for (u32 i = 0; i < I.n; i++) t.push_back(rd(*f, (*I.ops)[i])); for (u32 i = 0; i < I.n; i++) f->r[I.dst + i] = t[i]; f->pc++; break; }
    case O_ALLOCA: {
      Val n = rd(*f, I.a); u64 c = conc(s, n); Object* o = s.mem.alloc(c * (u64)I.imm, OK_STACK, I.I->hasName() ? I.I->getName().data() : "local");
      if (checkUninit) o->un.assign(o->size, 1);
      f = &s.st.back(); f->allocas.push_back(o->slot); f->r[I.dst] = V(o->base); f->pc++; break; }
    case O_BR: takeEdge(s, (*I.edges)[0]); break;
    case O_CBR: { Val c = rd(*f, I.a); if (c.e && !isC(c.e) && g_merge && tryMerge(s, c.e, I)) break; bool t = c.e ? decide(s, c.e) : c.c & 1; takeEdge(s, (*I.edges)[t ? 0 : 1]); break; }
    case O_SWITCH: {
      Val v = rd(*f, I.a); auto& cs = *I.cases; auto& ed = *I.edges;   // ed[0] default; ed[i+1] for cs[i]
      if (!v.e) { size_t t = 0; for (size_t i = 0; i < cs.size(); i++) if (cs[i] == v.c) { t = i + 1; break; } takeEdge(s, ed[t]); break; }
      // group cases by target with identical moves (edge identity index stored in imm table)
      std::map<u32, std::vector<size_t>> grp; for (size_t i = 0; i < cs.size(); i++) grp[ed[i + 1].moves.empty() ? ed[i + 1].target : (0x80000000u | (u32)i)].push_back(i);
      Expr* any = mkC(0, 1); u64 mv = evalE(v.e, s.m); size_t curG = ~0ull; Expr* curC = nullptr; size_t curEdge = 0;
      std::vector<std::pair<Expr*, size_t>> alts;
      Expr* defE = nullptr; u32 defT = ed[0].target; bool defMoves = !ed[0].moves.empty();
      for (auto& g : grp) {
        Expr* c = mkC(0, 1); bool hit = false; for (size_t i : g.second) { c = mkBin(K_OR, c, mkBin(K_EQ, v.e, mkC(cs[i], I.w))); hit |= cs[i] == mv; }
        if (!defMoves && g.first == defT) continue;   // same as default
        any = mkBin(K_OR, any, c);
        if (hit) { curG = g.first; curC = c; curEdge = g.second[0] + 1; } else alts.push_back({c, g.second[0] + 1});
      }
      (void)curG; defE = mkNot(any);
      if (curC) alts.push_back({defE, 0}); else { curC = defE; curEdge = 0; }
      uninitCheck(s, curC, "switch depends on uninitialised memory");
      bool forked = false;
      for (auto& al : alts) { Model m; int r = feas(s, al.first, m); if (r != 0) forked = true; if (r == 1) { State* n = forkState(s, al.first, m); takeEdge(*n, ed[al.second]); } }
      if (forked) addC(s, curC);
      takeEdge(s, ed[curEdge]); break; }
    case O_RET: doRet(s, I); break;
    case O_CALL: {
      CallInfo& ci = *I.call;
      if (ci.builtin >= 0) {
        std::vector<Val> a; for (auto& o : ci.args) a.push_back(rd(*f, o));
        Val r = callBuiltin(s, I, ci, a); f = &s.st.back();
        if (I.dst >= 0 && I.n == 1) f->r[I.dst] = r;
        if (I.edges) takeEdge(s, (*I.edges)[0]); else f->pc++;
        break;
      }
      const llvm::Function* F = ci.fn;
      if (!F) {
        u64 t = conc(s, rd(*f, ci.callee)); auto it = faddr.find(t);
        if (it == faddr.end()) fail(s, t < 65536 ? "null-call" : "wild-call", "call through invalid function pointer");
        F = it->second;
        if (F->isDeclaration()) {
          int b = builtinId(F->getName().str()); if (b < 0) unsupported(s, "external function " + F->getName().str());
          std::vector<Val> a; for (auto& o : ci.args) a.push_back(rd(*f, o)); CallInfo c2 = ci; c2.builtin = b; c2.fn = F;
          Val r = callBuiltin(s, I, c2, a); f = &s.st.back(); if (I.dst >= 0 && I.n == 1) f->r[I.dst] = r; f->pc++; break;
        }
      }
      if (F->isDeclaration()) unsupported(s, "external function " + F->getName().str());
      pushCall(s, F, I); break; }
    case O_UNREACH: fail(s, "unreachable", "reached code the compiler assumed unreachable");
    case O_UNSUP: { std::string t; llvm::raw_string_ostream os(t); I.I->print(os); unsupported(s, "instruction " + t.substr(0, 80)); }
  }
}
static u64 rssMB() { FILE* f = fopen("/proc/self/statm", "r"); u64 a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 >> 20; }
static void sample(State& s, const char* end) {
  sampSeen++; size_t at;
  if (samps.size() < nSamples) { samps.emplace_back(); at = samps.size() - 1; } else { at = rng() % sampSeen; if (at >= nSamples) return; }
  Samp& p = samps[at]; p = Samp(); p.hex = hexOf(s, s.m); for (auto& n : s.notes) p.notes.push_back({n.first, n.second.e ? evalE(n.second.e, s.m) : n.second.c}); p.reach = s.reach; p.end = end;
}
static void runState(State* s) {
  cur = s; u32 tick = 0;
  try {
    for (;;) {
      if ((++tick & 1023) == 0) { if (nowS() > deadline) { inc("time limit"); throw PathEnd{4}; } }
      if (s->steps > maxSteps) { if (hangError) fail(*s, "hang", "instruction budget exceeded"); inc("path instruction limit"); throw PathEnd{4}; }
      step(*s);
    }
  } catch (PathEnd& p) {
    nPaths++; if (p.why == 0 || p.why == 5) { for (auto& r : s->reach) reachN[r]++; sample(*s, "ok"); } else if (p.why == 1) nErrPaths++; else if (p.why == 2) nAssume++;
  }
  delete s;
}
static std::string js(const std::string& s) { std::string r = "\""; for (char ch : s) { unsigned char c = (unsigned char)ch; if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; }

static std::string g_bc, g_entry = "harness", g_out;
static void* mainThread(void*) {
  llvm::LLVMContext ctx; llvm::SMDiagnostic d; auto mod = llvm::parseIRFile(g_bc, d, ctx);
  if (!mod) { d.print("csx", llvm::errs()); exit(3); }
  M = mod.get(); DL = &M->getDataLayout();
  State* s0 = new State(); initGlobals(*s0);
  llvm::Function* E = M->getFunction(g_entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); exit(3); }
  Frame f; f.f = getFunc(E); f.pc = 0; f.r.resize(f.f->nregs); s0->st.push_back(f); work.push_back(s0);
  u64 it = 0;
  while (!work.empty()) {
    if (nowS() > deadline) { inc("time limit"); break; }
    if (nPaths >= maxPaths) { inc("path limit"); break; }
    if ((++it & 63) == 0 && rssMB() > memMB) { inc("memory limit"); size_t k = work.size() / 2; for (size_t i = 0; i < k; i++) { delete work[i]; dropped++; } work.erase(work.begin(), work.begin() + k); if (rssMB() > memMB * 5 / 4) break; }
    size_t i = work.size() - 1; if (mixSearch && (it & 1)) i = rng() % work.size();
    State* s = work[i]; work[i] = work.back(); work.pop_back(); runState(s);
  }
  std::string o = "{\n"; auto kv = [&](const char* k, const std::string& v, bool c = true) { o += std::string(" \"") + k + "\": " + v + (c ? ",\n" : "\n"); }; auto num = [](u64 v) { return std::to_string(v); };
  kv("complete", incomplete ? "false" : "true"); { std::string t = "["; for (auto& w : incWhy) t += (t.size() > 1 ? "," : "") + js(w); kv("incomplete_why", t + "]"); }
  kv("paths", num(nPaths)); kv("forks", num(nForks)); kv("error_paths", num(nErrPaths)); kv("assume_pruned", num(nAssume)); kv("pending", num(work.size() + dropped)); kv("instructions", num(nInstr));
  kv("queries", num(S.st.queries)); kv("sat", num(S.st.sat)); kv("unsat", num(S.st.unsat)); kv("unknown", num(S.st.unknown)); kv("cached", num(S.st.cached)); kv("fp_queries", num(S.st.fpq)); kv("bad_models", num(S.badModels));
  char b[64]; snprintf(b, 64, "%.3f", S.st.time); kv("solver_time_s", b); snprintf(b, 64, "%.3f", S.st.maxq); kv("max_query_s", b); snprintf(b, 64, "%.3f", nowS() - tstart); kv("wall_s", b); kv("exprs", num(g_nexpr)); kv("rss_mb", num(rssMB()));
  { std::string t = "["; for (auto& e : errs) { if (t.size() > 1) t += ",\n  "; t += "{\"kind\":" + js(e.kind) + ",\"msg\":" + js(e.msg) + ",\"loc\":" + js(e.loc) + ",\"stack\":" + js(e.stack) + ",\"hex\":\"" + e.hex + "\",\"inputs\":["; bool fst = true; for (auto& i : e.in) { t += std::string(fst ? "" : ",") + "[" + js(i.first) + ",\"" + i.second + "\"]"; fst = false; } t += "]}"; } kv("errors", t + "]"); }
  { std::string t = "{"; for (auto& r : reachN) t += (t.size() > 1 ? "," : "") + js(r.first) + ":" + num(r.second); kv("reach", t + "}"); }
  { std::string t = "{"; for (auto& r : unsup) t += (t.size() > 1 ? "," : "") + js(r.first) + ":" + num(r.second); kv("unsupported", t + "}"); }
  { std::string t = "["; for (auto& p : samps) { if (t.size() > 1) t += ",\n  "; t += "{\"hex\":\"" + p.hex + "\",\"notes\":["; bool fst = true; for (auto& n : p.notes) { t += std::string(fst ? "" : ",") + "[" + js(n.first) + "," + num(n.second) + "]"; fst = false; } t += "],\"reach\":["; fst = true; for (auto& n : p.reach) { t += std::string(fst ? "" : ",") + js(n); fst = false; } t += "]}"; } kv("samples", t + "]"); }
  { std::map<std::string, std::pair<u64, u64>> cov; std::map<std::string, std::set<unsigned>> lines;
    for (auto& p : funcs) for (auto& i : p.second->code) { const llvm::DILocation* L = i.I ? i.I->getDebugLoc().get() : nullptr; if (!L || !L->getScope()->getSubprogram()) continue; std::string fl = L->getFilename().str(); size_t q = fl.rfind('/'); if (q != std::string::npos) fl = fl.substr(q + 1); auto& c = cov[fl + ":" + L->getScope()->getSubprogram()->getName().str()]; c.second++; if (i.visited) { c.first++; if (L->getLine()) lines[fl].insert(L->getLine()); } }
    std::string t = "{"; for (auto& c : cov) if (c.second.first) t += (t.size() > 1 ? "," : "") + js(c.first) + ":[" + num(c.second.first) + "," + num(c.second.second) + "]"; kv("functions", t + "}");
    t = "{"; for (auto& l : lines) { t += (t.size() > 1 ? "," : "") + js(l.first) + ":["; bool fst = true; for (unsigned x : l.second) { t += (fst ? "" : ",") + num(x); fst = false; } t += "]"; } kv("lines", t + "}", false); }
  if (g_sites) { std::vector<std::pair<u64, std::string>> v; for (auto& x : siteN) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stdout, "%8llu forks at %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  o += "}\n";
  FILE* fo = g_out.empty() ? stdout : fopen(g_out.c_str(), "w"); if (!fo) { perror("out"); exit(3); } fputs(o.c_str(), fo); fflush(fo); if (fo != stdout) fclose(fo);
  _exit(0);
}
int main(int argc, char** argv) {
  tstart = nowS();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing arg\n"); exit(3); } return argv[++i]; };
    if (a == "--entry") g_entry = nx(); else if (a == "--out") g_out = nx(); else if (a == "--time") deadline = tstart + atof(nx().c_str()); else if (a == "--mem") memMB = strtoull(nx().c_str(), 0, 0);
    else if (a == "--param") params.push_back(strtoull(nx().c_str(), 0, 0)); else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 0);
    else if (a == "--timeout") S.timeoutMs = (unsigned)(atof(nx().c_str()) * 1000); else if (a == "--mux") muxLimit = (unsigned)atoi(nx().c_str()); else if (a == "--no-uninit") checkUninit = false; else if (a == "--sites") g_sites = true; else if (a == "--fork-reads") g_forkReads = true; else if (a == "--no-merge") g_merge = false; else if (a == "--hang-error") hangError = true;
    else if (a == "--seed") rng.seed(strtoull(nx().c_str(), 0, 0)); else if (a == "--mix") mixSearch = true; else if (a == "--samples") nSamples = strtoull(nx().c_str(), 0, 0); else if (a == "--max-errors") maxErr = strtoull(nx().c_str(), 0, 0);
    else if (a == "--dump") { S.dumpDir = nx(); S.dumpEvery = atoi(nx().c_str()); S.dumpMax = atoi(nx().c_str()); }
    else if (a[0] != '-') g_bc = a; else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); pthread_t t; pthread_create(&t, &at, mainThread, nullptr); pthread_join(t, nullptr);
}
