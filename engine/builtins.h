// Engine-level library functions, LLVM intrinsics and the harness API.
#pragma once
enum BI { B_INTR = 0, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ABORT, B_EXIT, B_ASSERTFAIL, B_ERRNO,
  B_BYTES, B_PICK, B_ASSUME, B_ASSERT, B_REACH, B_NOTE, B_RO, B_PROTECT, B_SYMBOLIC, B_PARAM, B_CONC, B_STOP, B_FAIL, B_MATH1, B_MATH2, B_STRTOD, B_FMTD, B_UNINIT, B_DBG, B_OBJSIZE, B_FREEZEG };
static const std::map<std::string, std::pair<int, int>> biNames = {
  {"malloc", {B_MALLOC, 0}}, {"calloc", {B_CALLOC, 0}}, {"realloc", {B_REALLOC, 0}}, {"free", {B_FREE, 0}}, {"memcpy", {B_MEMCPY, 0}}, {"memmove", {B_MEMMOVE, 0}}, {"memset", {B_MEMSET, 0}},
  {"abort", {B_ABORT, 0}}, {"exit", {B_EXIT, 0}}, {"_exit", {B_EXIT, 0}}, {"__assert_fail", {B_ASSERTFAIL, 0}},
  {"csx_bytes", {B_BYTES, 0}}, {"csx_pick", {B_PICK, 0}}, {"csx_assume", {B_ASSUME, 0}}, {"csx_assert", {B_ASSERT, 0}}, {"csx_reach", {B_REACH, 0}}, {"csx_note", {B_NOTE, 0}}, {"csx_ro", {B_RO, 0}}, {"csx_protect_all", {B_PROTECT, 0}}, {"csx_freeze_globals", {B_FREEZEG, 0}},
  {"csx_symbolic", {B_SYMBOLIC, 0}}, {"csx_param", {B_PARAM, 0}}, {"csx_concrete", {B_CONC, 0}}, {"csx_stop", {B_STOP, 0}}, {"csx_uninit", {B_UNINIT, 0}}, {"csx_dbg", {B_DBG, 0}}, {"csx_strtod", {B_STRTOD, 0}}, {"csx_fmtd", {B_FMTD, 0}}, {"csx_objsize", {B_OBJSIZE, 0}},
  {"sin", {B_MATH1, 1}}, {"cos", {B_MATH1, 2}}, {"tan", {B_MATH1, 13}}, {"log10", {B_MATH1, 3}}, {"exp", {B_MATH1, 4}}, {"log", {B_MATH1, 5}}, {"floor", {B_MATH1, 6}}, {"ceil", {B_MATH1, 7}}, {"trunc", {B_MATH1, 8}}, {"round", {B_MATH1, 9}}, {"fabs", {B_MATH1, 10}}, {"sqrt", {B_MATH1, 11}}, {"rint", {B_MATH1, 12}}, {"nearbyint", {B_MATH1, 12}},
  {"pow", {B_MATH2, 1}}, {"fmod", {B_MATH2, 2}}};
static int builtinId(const std::string& n) { auto it = biNames.find(n); return it == biNames.end() ? -1 : it->second.first; }

static u64 newHeap(State& s, u64 n, bool zero) {
  if (n > (256ull << 20)) return 0;
  Object* o = s.mem.alloc(n, OK_HEAP, "malloc"); if (!zero && checkUninit) o->un.assign(n, 1); return o->base;
}
static void freeObj(State& s, const Val& p) {
  u64 a = conc(s, p); if (!a) return;
  Object* o = s.mem.get(a);
  if (!o || o->kind != OK_HEAP || a != o->base) fail(s, "bad-free", "free of a pointer that malloc did not return");
  if (o->dead) fail(s, "double-free", "double free");
  o = s.mem.wr(o); o->dead = true; o->sym.clear(); o->un.clear(); o->data.clear(); o->data.shrink_to_fit();
}
static Val intrinsic(State& s, const Instr& I, CallInfo& ci, std::vector<Val>& a) {
  unsigned w = I.w ? I.w : (ci.w.empty() ? 64 : ci.w[0]);
  auto bin = [&](K k) { return (!a[0].e && !a[1].e) ? V(cbin(k, ci.w[0], a[0].c, a[1].c)) : V(mkBin(k, X(a[0], ci.w[0]), X(a[1], ci.w[0]))); };
  auto sel = [&](K k, bool sw) { Expr *x = X(a[0], w), *y = X(a[1], w); return V(mkIte(mkBin(k, sw ? y : x, sw ? x : y), x, y)); };
  switch (ci.iid) {
    case llvm::Intrinsic::memcpy: { u64 n = conc(s, a[2]); copyMem(s, a[0], a[1], n, false); return V((u64)0); }
    case llvm::Intrinsic::memmove: { u64 n = conc(s, a[2]); copyMem(s, a[0], a[1], n, true); return V((u64)0); }
    case llvm::Intrinsic::memset: { u64 n = conc(s, a[2]); setMem(s, a[0], a[1], n); return V((u64)0); }
    case llvm::Intrinsic::expect: case llvm::Intrinsic::expect_with_probability: case llvm::Intrinsic::launder_invariant_group: case llvm::Intrinsic::ssa_copy: return a[0];
    case llvm::Intrinsic::trap: case llvm::Intrinsic::debugtrap: fail(s, "trap", "llvm.trap");
    case llvm::Intrinsic::ubsantrap: {
      static const char* nm[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dyn-type", "float-cast-overflow", "function-type", "implicit-conversion", "invalid-builtin", "objc", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment-assumption", "vla-bound"};
      fail(s, std::string("ub:") + (a[0].c < 25 ? nm[a[0].c] : "?"), "undefined behaviour"); }
    case llvm::Intrinsic::bswap: { Expr* e = X(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* b = mkExtract(e, i * 8, 8); r = r ? mkConcat(r, b) : b; } return V(r); }
    case llvm::Intrinsic::fshl: case llvm::Intrinsic::fshr: {
      if (a[2].e) { Expr* sh = mkBin(K_UREM, a[2].e, mkC(w, w)); Expr* inv = mkBin(K_SUB, mkC(w, w), sh); Expr *hi = X(a[0], w), *lo = X(a[1], w);
        return ci.iid == llvm::Intrinsic::fshl ? V(mkBin(K_OR, mkBin(K_SHL, hi, sh), mkBin(K_LSHR, lo, inv))) : V(mkBin(K_OR, mkBin(K_SHL, hi, inv), mkBin(K_LSHR, lo, sh))); }
      u64 k = a[2].c % w; if (ci.iid == llvm::Intrinsic::fshr) k = (w - k) % w; Expr *hi = X(a[0], w), *lo = X(a[1], w);
      if (k == 0) return ci.iid == llvm::Intrinsic::fshl ? a[0] : a[1];
      return V(mkConcat(mkExtract(hi, 0, w - (unsigned)k), mkExtract(lo, w - (unsigned)k, (unsigned)k))); }
    case llvm::Intrinsic::ctpop: { Expr* e = X(a[0], w); Expr* r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZext(mkExtract(e, i, 1), w)); return V(r); }
    case llvm::Intrinsic::cttz: { Expr* e = X(a[0], w); Expr* r = mkC(w, w); for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(e, (unsigned)i, 1), mkC((u64)i, w), r); return V(r); }
    case llvm::Intrinsic::ctlz: { Expr* e = X(a[0], w); Expr* r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkC(w - 1 - i, w), r); return V(r); }
    case llvm::Intrinsic::bitreverse: { Expr* e = X(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w; i++) { Expr* b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } return V(r); }
    case llvm::Intrinsic::umin: return sel(K_ULT, false); case llvm::Intrinsic::umax: return sel(K_ULT, true); case llvm::Intrinsic::smin: return sel(K_SLT, false); case llvm::Intrinsic::smax: return sel(K_SLT, true);
    case llvm::Intrinsic::abs: { Expr* x = X(a[0], w); return V(mkIte(mkBin(K_SLT, x, mkC(0, w)), mkBin(K_SUB, mkC(0, w), x), x)); }
    case llvm::Intrinsic::usub_sat: { Expr *x = X(a[0], w), *y = X(a[1], w); return V(mkIte(mkBin(K_ULT, x, y), mkC(0, w), mkBin(K_SUB, x, y))); }
    case llvm::Intrinsic::uadd_sat: { Expr *x = X(a[0], w), *y = X(a[1], w); Expr* r = mkBin(K_ADD, x, y); return V(mkIte(mkBin(K_ULT, r, x), mkC(~0ull, w), r)); }
    case llvm::Intrinsic::uadd_with_overflow: case llvm::Intrinsic::usub_with_overflow: case llvm::Intrinsic::umul_with_overflow: case llvm::Intrinsic::sadd_with_overflow: case llvm::Intrinsic::ssub_with_overflow: case llvm::Intrinsic::smul_with_overflow: {
      Expr *x = X(a[0], w), *y = X(a[1], w), *r, *o;
      switch (ci.iid) {
        case llvm::Intrinsic::uadd_with_overflow: r = mkBin(K_ADD, x, y); o = mkBin(K_ULT, r, x); break;
        case llvm::Intrinsic::usub_with_overflow: r = mkBin(K_SUB, x, y); o = mkBin(K_ULT, x, y); break;
        case llvm::Intrinsic::sadd_with_overflow: { r = mkBin(K_ADD, x, y); o = mkBin(K_SLT, mkBin(K_AND, mkBin(K_XOR, x, r), mkBin(K_XOR, y, r)), mkC(0, w)); break; }
        case llvm::Intrinsic::ssub_with_overflow: { r = mkBin(K_SUB, x, y); o = mkBin(K_SLT, mkBin(K_AND, mkBin(K_XOR, x, y), mkBin(K_XOR, x, r)), mkC(0, w)); break; }
        case llvm::Intrinsic::umul_with_overflow: r = mkBin(K_MUL, x, y); if (w <= 32) o = mkNot(mkBin(K_EQ, mkExtract(mkBin(K_MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)), w, w), mkC(0, w)));
          else { Expr* nz = mkNot(mkBin(K_EQ, x, mkC(0, w))); o = mkBin(K_AND, nz, mkNot(mkBin(K_EQ, mkBin(K_UDIV, r, mkIte(nz, x, mkC(1, w))), y))); } break;
        default: { r = mkBin(K_MUL, x, y); if (w <= 32) o = mkNot(mkBin(K_EQ, mkBin(K_MUL, mkSext(x, 2 * w), mkSext(y, 2 * w)), mkSext(r, 2 * w)));
          else { Expr* z = mkBin(K_EQ, x, mkC(0, w)); Expr* m1 = mkBin(K_EQ, x, mkC(~0ull, w)); Expr* ov1 = mkBin(K_AND, m1, mkBin(K_EQ, y, mkC(1ull << (w - 1), w))); Expr* sx0 = mkIte(mkBin(K_OR, z, m1), mkC(1, w), x); o = mkBin(K_OR, ov1, mkBin(K_AND, mkNot(mkBin(K_OR, z, m1)), mkNot(mkBin(K_EQ, mkBin(K_SDIV, r, sx0), y)))); } }
      }
      Frame& f = s.st.back(); f.r[I.dst] = V(r); f.r[I.dst + 1] = V(o); return V((u64)0); }
    case llvm::Intrinsic::fabs: return V(mkBin(K_AND, X(a[0], w), mkC(maskw(w) >> 1, w)));
    case llvm::Intrinsic::floor: return V(mkUn(K_FRND, X(a[0], w), w, 0)); case llvm::Intrinsic::ceil: return V(mkUn(K_FRND, X(a[0], w), w, 1)); case llvm::Intrinsic::trunc: return V(mkUn(K_FRND, X(a[0], w), w, 2));
    case llvm::Intrinsic::rint: case llvm::Intrinsic::nearbyint: case llvm::Intrinsic::roundeven: return V(mkUn(K_FRND, X(a[0], w), w, 3)); case llvm::Intrinsic::round: return V(mkUn(K_FRND, X(a[0], w), w, 4));
    case llvm::Intrinsic::sqrt: return V(mkUn(K_FSQRT, X(a[0], w), w));
    case llvm::Intrinsic::fmuladd: return V(mkBin(K_FADD, mkBin(K_FMUL, X(a[0], w), X(a[1], w)), X(a[2], w)));
    case llvm::Intrinsic::copysign: { u64 sb = 1ull << (w - 1); return V(mkBin(K_OR, mkBin(K_AND, X(a[0], w), mkC(sb - 1, w)), mkBin(K_AND, X(a[1], w), mkC(sb, w)))); }
    case llvm::Intrinsic::minnum: case llvm::Intrinsic::maxnum: { Expr *x = X(a[0], w), *y = X(a[1], w); Expr* c = ci.iid == llvm::Intrinsic::minnum ? mkBin(K_FLT, x, y) : mkBin(K_FLT, y, x); return V(mkIte(mkBin(K_FUNO, x, x), y, mkIte(mkBin(K_FUNO, y, y), x, mkIte(c, x, y)))); }
    case llvm::Intrinsic::is_fpclass: { u64 m = a[1].c; unsigned fw = ci.w[0]; Expr* x = X(a[0], fw); unsigned mb = fw == 64 ? 52 : 23; Expr* mag = mkBin(K_AND, x, mkC(maskw(fw) >> 1, fw)); u64 infb = maskw(fw - 1 - mb) << mb; Expr* neg = mkExtract(x, fw - 1, 1); Expr* r = mkC(0, 1);
      auto add = [&](Expr* c) { r = mkBin(K_OR, r, c); };
      Expr* nan = mkBin(K_ULT, mkC(infb, fw), mag); Expr* inf = mkBin(K_EQ, mag, mkC(infb, fw)); Expr* zero = mkBin(K_EQ, mag, mkC(0, fw)); Expr* sub = mkBin(K_AND, mkNot(zero), mkBin(K_ULT, mag, mkC(1ull << mb, fw))); Expr* nrm = mkBin(K_AND, mkBin(K_ULT, mag, mkC(infb, fw)), mkBin(K_ULE, mkC(1ull << mb, fw), mag));
      Expr* qn = mkBin(K_AND, nan, mkExtract(x, mb - 1, 1)); if (m & 1) add(mkBin(K_AND, nan, mkNot(qn))); if (m & 2) add(qn); if (m & 4) add(mkBin(K_AND, inf, neg)); if (m & 8) add(mkBin(K_AND, nrm, neg)); if (m & 16) add(mkBin(K_AND, sub, neg)); if (m & 32) add(mkBin(K_AND, zero, neg)); Expr* pos = mkNot(neg);
      if (m & 64) add(mkBin(K_AND, zero, pos)); if (m & 128) add(mkBin(K_AND, sub, pos)); if (m & 256) add(mkBin(K_AND, nrm, pos)); if (m & 512) add(mkBin(K_AND, inf, pos)); return V(r); }
    case llvm::Intrinsic::vastart: {
      u64 p = conc(s, a[0]); std::vector<Val> va = s.st.back().va; Object* o = s.mem.alloc(8 * va.size() + 8, OK_STACK, "va"); s.st.back().allocas.push_back(o->slot); u64 b = o->base; u32 sl = o->slot;
      for (size_t i = 0; i < va.size(); i++) { Val v = va[i]; if (v.e && v.e->w < 64) v = V(mkZext(v.e, 64)); writeAt(s, s.mem.wr(s.mem.bySlot(sl)), 8 * i, 8, v); }
      storeMem(s, V(p), 4, V((u64)48)); storeMem(s, V(p + 4), 4, V((u64)176)); storeMem(s, V(p + 8), 8, V(b)); storeMem(s, V(p + 16), 8, V((u64)0)); return V((u64)0); }
    case llvm::Intrinsic::vacopy: copyMem(s, a[0], a[1], 24, true); return V((u64)0);
    case llvm::Intrinsic::stacksave: return V((u64)0); case llvm::Intrinsic::stackrestore: return V((u64)0);
    case llvm::Intrinsic::is_constant: return V((u64)0);
    case llvm::Intrinsic::objectsize: return V(a.size() > 1 && a[1].c ? (u64)0 : maskw(w));
    case llvm::Intrinsic::load_relative: { Val o4 = loadMem(s, V(mkBin(K_ADD, X(a[0], 64), X(a[1], 64))), 4); return V(mkBin(K_ADD, X(a[0], 64), mkSext(X(o4, 32), 64))); }
    default: break;
  }
  (void)bin; unsupported(s, std::string("intrinsic ") + llvm::Intrinsic::getBaseName(ci.iid).str());
}
static Val callBuiltin(State& s, const Instr& I, CallInfo& ci, std::vector<Val>& a) {
  switch (ci.builtin) {
    case B_INTR: return intrinsic(s, I, ci, a);
    case B_MALLOC: return V(newHeap(s, conc(s, a[0]), false));
    case B_CALLOC: { u64 x = conc(s, a[0]), y = conc(s, a[1]); if (y && x > (1ull << 40) / y) return V((u64)0); return V(newHeap(s, x * y, true)); }
    case B_REALLOC: {
      u64 p = conc(s, a[0]), n = conc(s, a[1]); if (!p) return V(newHeap(s, n, false));
      Object* o = s.mem.get(p); if (!o || o->kind != OK_HEAP || p != o->base) fail(s, "bad-free", "realloc of a pointer that malloc did not return"); if (o->dead) fail(s, "use-after-free", "realloc of freed memory");
      u64 os = o->size, q = newHeap(s, n, false); if (!q) return V((u64)0); copyMem(s, V(q), V(p), std::min(os, n), false); freeObj(s, V(p)); return V(q); }
    case B_FREE: freeObj(s, a[0]); return V((u64)0);
    case B_MEMCPY: { u64 n = conc(s, a[2]); copyMem(s, a[0], a[1], n, false); return a[0]; }
    case B_MEMMOVE: { u64 n = conc(s, a[2]); copyMem(s, a[0], a[1], n, true); return a[0]; }
    case B_MEMSET: { u64 n = conc(s, a[2]); setMem(s, a[0], a[1], n); return a[0]; }
    case B_ABORT: fail(s, "abort", "abort called");
    case B_ASSERTFAIL: fail(s, "c-assert", cstr(s, conc(s, a[0])));
    case B_EXIT: throw PathEnd{0};
    case B_STOP: throw PathEnd{0};
    case B_BYTES: {
      u64 p = conc(s, a[0]), n = conc(s, a[1]); Input in; in.name = cstr(s, conc(s, a[2]), 64);
      for (u64 i = 0; i < n; i++) { Expr* e = mkRaw(K_SYM, 8, 0, 2 * s.nsym++, 0, 0, 0); in.b.push_back(e); storeMem(s, V(p + i), 1, V(e)); }
      s.in.push_back(in); return V((u64)0); }
    case B_PICK: {
      u64 lo = conc(s, a[0]), hi = conc(s, a[1]); std::string nm = cstr(s, conc(s, a[2]), 64); if (lo > hi) throw PathEnd{2}; if (hi - lo > 4096) unsupported(s, "csx_pick range");
      auto mk = [&](State& t, u64 v) { Input in; in.name = nm; for (int i = 0; i < 8; i++) in.b.push_back(mkC(v >> (8 * i), 8)); t.in.push_back(in); };
      for (u64 v = hi; v > lo; v--) { State* n = new State(s); nForks++; n->depth++; mk(*n, v); Frame& f = n->st.back(); if (I.dst >= 0) f.r[I.dst] = V(v); f.pc++; work.push_back(n); }
      mk(s, lo); return V(lo); }
    case B_ASSUME: {
      Expr* c = mkNot(mkBin(K_EQ, X(a[0], ci.w[0]), mkC(0, ci.w[0]))); Model m; int r = feas(s, c, m); if (r != 1) throw PathEnd{2}; s.m = m; addC(s, c); return V((u64)0); }
    case B_ASSERT: {
      Expr* c = mkNot(mkBin(K_EQ, X(a[0], ci.w[0]), mkC(0, ci.w[0]))); if (isC(c, 1)) return V((u64)0);
      std::string msg = cstr(s, conc(s, a[1])); if (isC(c, 0)) fail(s, "assert", msg);
      Expr* nc = mkNot(c); Model m; int r = feas(s, nc, m);
      if (r == 1) { report(s, m, "assert", msg); nErrPaths++; Model m2; if (feas(s, c, m2) != 1) throw PathEnd{1}; s.m = m2; }
      if (r != 0) addC(s, c);
      return V((u64)0); }
    case B_REACH: { std::string l = cstr(s, conc(s, a[0])); if (std::find(s.reach.begin(), s.reach.end(), l) == s.reach.end()) s.reach.push_back(l); return V((u64)0); }
    case B_NOTE: { Val v = a[1]; s.notes.push_back({cstr(s, conc(s, a[0])), v}); return V((u64)0); }
    case B_RO: { u64 p = conc(s, a[0]); Object* o = s.mem.get(p); if (o) { o = s.mem.wr(o); o->ro = conc(s, a[1]) != 0; } return V((u64)0); }
    case B_PROTECT: { for (u32 i = 0; i < s.mem.n; i++) { Object* o = s.mem.bySlot(i); if (o && !o->dead && o->kind != OK_ALIAS && o->kind != OK_FUNC && !o->harness && !o->ro) { o = s.mem.wr(o); o->ro = true; } } return V((u64)0); }
    case B_FREEZEG: { for (u32 i = 0; i < s.mem.n; i++) { Object* o = s.mem.bySlot(i); if (o && !o->dead && o->kind == OK_GLOBAL && !o->harness && !o->ro) { o = s.mem.wr(o); o->ro = true; } } return V((u64)0); }
    case B_SYMBOLIC: return V((u64)1);
    case B_PARAM: { u64 i = conc(s, a[0]); return V(i < params.size() ? params[i] : 0); }
    case B_CONC: { return V(conc(s, a[0])); }
    case B_UNINIT: { u64 p = conc(s, a[0]), n = conc(s, a[1]); Object* o = s.mem.get(p); if (o && checkUninit) { o = s.mem.wr(o); if (o->un.empty()) o->un.assign(o->size, 0); for (u64 i = 0; i < n && p - o->base + i < o->size; i++) o->un[p - o->base + i] = 1; } return V((u64)0); }
    case B_OBJSIZE: { Object* o = s.mem.get(conc(s, a[0])); return V(o ? o->size : 0); }
    case B_DBG: fprintf(stderr, "dbg %s = %llx%s\n", cstr(s, conc(s, a[0])).c_str(), (unsigned long long)(a[1].e ? evalE(a[1].e, s.m) : a[1].c), a[1].e ? " (sym)" : ""); return V((u64)0);
    case B_STRTOD: {   // double csx_strtod(const char*s, size_t* consumed): text is concretised
      u64 p = conc(s, a[0]); std::string t; Object* o = s.mem.get(p); if (!o) fail(s, "null-deref", "strtod");
      for (u64 i = p - o->base; i < o->size && t.size() < 400; i++) { Val b = readAt(s, s.mem.bySlot(o->slot), i, 1); u64 v = conc(s, b); if (!v) break; t += (char)v; if (!strchr("0123456789+-.eExXabcdefABCDEFpPinfINFnatyNATY ", (int)v)) break; }
      char* e; double d = strtod(t.c_str(), &e); storeMem(s, a[1], 8, V((u64)(e - t.c_str()))); return V(dBits(d)); }
    case B_FMTD: {     // int csx_fmtd(char*buf,size_t n,const char*fmt,double v)
      u64 b = conc(s, a[0]), n = conc(s, a[1]); std::string f = cstr(s, conc(s, a[2])); u64 v = conc(s, a[3]); char t[512]; int k = snprintf(t, sizeof t, f.c_str(), asD(v));
      for (int i = 0; i <= k && (u64)i < n; i++) storeMem(s, V(b + (u64)i), 1, V((u64)(u8)((u64)i + 1 == n ? 0 : t[i]))); return V((u64)(unsigned)k); }
    case B_MATH1: { int w = biNames.at(ci.fn->getName().str()).second;
      if (w == 6) return V(mkUn(K_FRND, X(a[0], 64), 64, 0)); if (w == 7) return V(mkUn(K_FRND, X(a[0], 64), 64, 1)); if (w == 8) return V(mkUn(K_FRND, X(a[0], 64), 64, 2)); if (w == 9) return V(mkUn(K_FRND, X(a[0], 64), 64, 4)); if (w == 10) return V(mkBin(K_AND, X(a[0], 64), mkC(~0ull >> 1, 64))); if (w == 11) return V(mkUn(K_FSQRT, X(a[0], 64), 64)); if (w == 12) return V(mkUn(K_FRND, X(a[0], 64), 64, 3));
      double x = asD(conc(s, a[0])), r = w == 1 ? sin(x) : w == 2 ? cos(x) : w == 3 ? log10(x) : w == 4 ? exp(x) : w == 13 ? tan(x) : log(x); return V(dBits(r)); }
    case B_MATH2: { int w = biNames.at(ci.fn->getName().str()).second; double x = asD(conc(s, a[0])), y = asD(conc(s, a[1])); return V(dBits(w == 1 ? pow(x, y) : fmod(x, y))); }
  }
  unsupported(s, "builtin");
}
