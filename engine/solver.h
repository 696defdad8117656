// Translation of expressions to Z3 and the query layer (independence slicing, model reuse, caching).
#pragma once
#include "expr.h"
#include <chrono>
#include <map>

static double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, fpq = 0, nodes = 0; double time = 0, maxq = 0; };

struct Solver {
  Z3_context c; SolverStats st; unsigned timeoutMs = 20000;
  std::map<std::vector<uint32_t>, std::pair<int, std::vector<std::pair<uint32_t, uint8_t>>>> cache;
  std::unordered_map<Expr*, Z3_ast> fpc;
  std::vector<Z3_ast> symv;
  std::string dumpDir; int dumpEvery = 0, dumped = 0, dumpMax = 0;
  Solver() {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    c = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(c, [](Z3_context cc, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(cc, e)); });
  }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(c, w); }
  Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(c, v, bv(w)); }
  Z3_ast rne() { static Z3_ast r = nullptr; if (!r) r = Z3_mk_fpa_rne(c); return r; }
  Z3_sort fs(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c); }
  static bool isFpOp(Expr* e) { return (e->k >= K_FADD && e->k <= K_FREM) || e->k == K_FEXT || e->k == K_FTRUNC || e->k == K_SITOF || e->k == K_UITOF || e->k == K_FSQRT || e->k == K_FRND; }
  Z3_ast F(Expr* e) {
    auto it = fpc.find(e); if (it != fpc.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
      case K_FADD: r = Z3_mk_fpa_add(c, rne(), F(e->a), F(e->b)); break;
      case K_FSUB: r = Z3_mk_fpa_sub(c, rne(), F(e->a), F(e->b)); break;
      case K_FMUL: r = Z3_mk_fpa_mul(c, rne(), F(e->a), F(e->b)); break;
      case K_FDIV: r = Z3_mk_fpa_div(c, rne(), F(e->a), F(e->b)); break;
      case K_FREM: r = Z3_mk_fpa_rem(c, F(e->a), F(e->b)); break;
      case K_FEXT: r = Z3_mk_fpa_to_fp_float(c, rne(), F(e->a), fs(64)); break;
      case K_FTRUNC: r = Z3_mk_fpa_to_fp_float(c, rne(), F(e->a), fs(32)); break;
      case K_SITOF: r = Z3_mk_fpa_to_fp_signed(c, rne(), B(e->a), fs(e->w)); break;
      case K_UITOF: r = Z3_mk_fpa_to_fp_unsigned(c, rne(), B(e->a), fs(e->w)); break;
      case K_FSQRT: r = Z3_mk_fpa_sqrt(c, rne(), F(e->a)); break;
      case K_FRND: {
        Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(c) : e->aux == 1 ? Z3_mk_fpa_rtp(c) : e->aux == 2 ? Z3_mk_fpa_rtz(c) : e->aux == 3 ? Z3_mk_fpa_rne(c) : Z3_mk_fpa_rna(c);
        r = Z3_mk_fpa_round_to_integral(c, m, F(e->a)); break; }
      case K_ITE: if (e->b->fp || e->d->fp) { r = Z3_mk_ite(c, P(e->a), F(e->b), F(e->d)); break; } // fallthrough
      default: r = Z3_mk_fpa_to_fp_bv(c, B(e), fs(e->w)); break;
    }
    fpc[e] = r; return r;
  }
  Z3_ast B(Expr* e) {   // bit-vector view
    if (e->zv) return e->zv;
    Z3_ast r = nullptr; st.nodes++;
    if (isFpOp(e)) r = Z3_mk_fpa_to_ieee_bv(c, F(e));
    else switch (e->k) {
      case K_CONST: r = num(e->c, e->w); break;
      case K_SYM: { char nm[32]; snprintf(nm, sizeof nm, "s%llu", (unsigned long long)e->c); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), bv(e->w)); break; }
      case K_CONCAT: r = Z3_mk_concat(c, B(e->a), B(e->b)); break;
      case K_EXTRACT: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, B(e->a)); break;
      case K_ZEXT: if (e->a->w == 1) r = Z3_mk_ite(c, P(e->a), num(1, e->w), num(0, e->w)); else r = Z3_mk_zero_ext(c, e->w - e->a->w, B(e->a)); break;
      case K_SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, B(e->a)); break;
      case K_ITE: if (e->w > 1) { r = Z3_mk_ite(c, P(e->a), B(e->b), B(e->d)); break; } // fallthrough
      case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_FEQ: case K_FLT: case K_FLE: case K_FUNO:
        r = Z3_mk_ite(c, P(e), num(1, 1), num(0, 1)); break;
      case K_ADD: r = Z3_mk_bvadd(c, B(e->a), B(e->b)); break;
      case K_SUB: r = Z3_mk_bvsub(c, B(e->a), B(e->b)); break;
      case K_MUL: r = Z3_mk_bvmul(c, B(e->a), B(e->b)); break;
      case K_UDIV: r = Z3_mk_bvudiv(c, B(e->a), B(e->b)); break;
      case K_SDIV: r = Z3_mk_bvsdiv(c, B(e->a), B(e->b)); break;
      case K_UREM: r = Z3_mk_bvurem(c, B(e->a), B(e->b)); break;
      case K_SREM: r = Z3_mk_bvsrem(c, B(e->a), B(e->b)); break;
      case K_AND: if (e->w == 1) r = Z3_mk_ite(c, P(e), num(1, 1), num(0, 1)); else r = Z3_mk_bvand(c, B(e->a), B(e->b)); break;
      case K_OR: if (e->w == 1) r = Z3_mk_ite(c, P(e), num(1, 1), num(0, 1)); else r = Z3_mk_bvor(c, B(e->a), B(e->b)); break;
      case K_XOR: if (e->w == 1) r = Z3_mk_ite(c, P(e), num(1, 1), num(0, 1)); else r = Z3_mk_bvxor(c, B(e->a), B(e->b)); break;
      case K_SHL: r = Z3_mk_bvshl(c, B(e->a), B(e->b)); break;
      case K_LSHR: r = Z3_mk_bvlshr(c, B(e->a), B(e->b)); break;
      case K_ASHR: r = Z3_mk_bvashr(c, B(e->a), B(e->b)); break;
      case K_FTOSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), F(e->a), e->w); break;
      case K_FTOUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), F(e->a), e->w); break;
      default: fprintf(stderr, "B: kind %d\n", e->k); abort();
    }
    e->zv = r; return r;
  }
  Z3_ast P(Expr* e) {   // boolean view (width 1)
    if (e->zb) return e->zb;
    Z3_ast r = nullptr; Z3_ast t[2];
    switch (e->k) {
      case K_CONST: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
      case K_EQ: if (e->a->w == 1) r = Z3_mk_iff(c, P(e->a), P(e->b)); else r = Z3_mk_eq(c, B(e->a), B(e->b)); break;
      case K_ULT: r = Z3_mk_bvult(c, B(e->a), B(e->b)); break;
      case K_ULE: r = Z3_mk_bvule(c, B(e->a), B(e->b)); break;
      case K_SLT: r = Z3_mk_bvslt(c, B(e->a), B(e->b)); break;
      case K_SLE: r = Z3_mk_bvsle(c, B(e->a), B(e->b)); break;
      case K_FEQ: r = Z3_mk_fpa_eq(c, F(e->a), F(e->b)); break;
      case K_FLT: r = Z3_mk_fpa_lt(c, F(e->a), F(e->b)); break;
      case K_FLE: r = Z3_mk_fpa_leq(c, F(e->a), F(e->b)); break;
      case K_FUNO: t[0] = Z3_mk_fpa_is_nan(c, F(e->a)); t[1] = Z3_mk_fpa_is_nan(c, F(e->b)); r = Z3_mk_or(c, 2, t); break;
      case K_AND: t[0] = P(e->a); t[1] = P(e->b); r = Z3_mk_and(c, 2, t); break;
      case K_OR: t[0] = P(e->a); t[1] = P(e->b); r = Z3_mk_or(c, 2, t); break;
      case K_XOR: r = isC(e->b, 1) ? Z3_mk_not(c, P(e->a)) : Z3_mk_xor(c, P(e->a), P(e->b)); break;
      case K_ITE: r = Z3_mk_ite(c, P(e->a), P(e->b), P(e->d)); break;
      default: r = Z3_mk_eq(c, B(e), num(1, 1)); break;
    }
    e->zb = r; return r;
  }

  // sat(pc & q)?  1 sat (model updated in place), 0 unsat, -1 unknown.  m satisfies pc on entry.
  int check(const std::vector<Expr*>& pc, Expr* q, Model& m, bool wantModel = true) {
    if (isC(q)) return q->c ? 1 : 0;
    // independence slice
    std::vector<uint8_t> in; std::vector<char> used(pc.size(), 0); std::vector<Expr*> sl;
    auto addSup = [&](Expr* e) { for (uint32_t s : support(e)) { if (s >= in.size()) in.resize(s + 64, 0); in[s] = 1; } };
    addSup(q);
    for (bool ch = true; ch;) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        bool hit = false;
        for (uint32_t s : support(pc[i])) if (s < in.size() && in[s]) { hit = true; break; }
        if (hit) { used[i] = 1; sl.push_back(pc[i]); addSup(pc[i]); ch = true; if (pc[i] == q) return 1; }
      }
    }
    Expr* nq = mkNot(q);
    for (Expr* e : sl) if (e == nq) return 0;
    std::vector<uint32_t> key; key.reserve(sl.size() + 1);
    for (Expr* e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.push_back(q->id);
    auto it = cache.find(key);
    if (it != cache.end()) {
      st.cached++;
      if (it->second.first == 1 && wantModel) for (auto& p : it->second.second) { if (p.first >= m.size()) m.resize(p.first + 1, 0); m[p.first] = p.second; }
      return it->second.first;
    }
    bool fp = q->fp; for (Expr* e : sl) fp |= e->fp;
    double t0 = nowS(); st.queries++; if (fp) st.fpq++;
    Z3_solver s = fp ? Z3_mk_solver(c) : Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
    Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs);
    Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
    for (Expr* e : sl) Z3_solver_assert(c, s, P(e));
    Z3_solver_assert(c, s, P(q));
    if (dumpEvery && dumped < dumpMax && st.queries % dumpEvery == 0) dump(s);
    Z3_lbool r = Z3_solver_check(c, s);
    std::vector<std::pair<uint32_t, uint8_t>> as;
    if (r == Z3_L_TRUE) {
      Z3_model zm = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, zm);
      for (uint32_t y = 0; y < in.size(); y++) if (in[y]) {
        Z3_ast v = nullptr; uint64_t x = 0;
        if (Z3_model_eval(c, zm, B(mkRaw(K_SYM, 8, 0, y, 0, 0, 0)), true, &v) && v) Z3_get_numeral_uint64(c, v, &x);
        as.push_back({y, (uint8_t)x});
      }
      Z3_model_dec_ref(c, zm);
    }
    Z3_solver_dec_ref(c, s);
    double dt = nowS() - t0; st.time += dt; st.maxq = std::max(st.maxq, dt);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {   // check the model against our own evaluator (guards the translation)
      Model mm = m; for (auto& a : as) { if (a.first >= mm.size()) mm.resize(a.first + 1, 0); mm[a.first] = a.second; }
      bool good = evalE(q, mm); for (Expr* e : sl) if (good && !evalE(e, mm)) good = false;
      if (!good) { res = -1; badModels++; as.clear(); }
    }
    if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
    cache[key] = {res, as};
    if (res == 1 && wantModel) for (auto& a : as) { if (a.first >= m.size()) m.resize(a.first + 1, 0); m[a.first] = a.second; }
    return res;
  }
  uint64_t badModels = 0;
  void dump(Z3_solver s) {
    char fn[512]; snprintf(fn, sizeof fn, "%s/q%d.smt2", dumpDir.c_str(), dumped++);
    if (FILE* f = fopen(fn, "w")) { fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(c, s)); fclose(f); }
  }
};
