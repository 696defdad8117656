// Hash-consed bit-vector / floating-point expressions (width 1..64) with structural simplification.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <z3.h>

enum K : uint8_t {
  K_CONST, K_SYM, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM,
  K_FEQ, K_FLT, K_FLE, K_FUNO,
  K_FEXT, K_FTRUNC, K_SITOF, K_UITOF, K_FTOSI, K_FTOUI, K_FSQRT, K_FRND
};

struct Expr {
  K k; uint8_t w; uint8_t aux; bool fp;   // aux: extract low bit / rounding kind ; fp: contains FP op
  uint64_t c;                             // const value / symbol id
  Expr *a, *b, *d;
  uint64_t h; uint32_t id;
  Z3_ast zv, zb;
  std::vector<uint32_t>* sup;             // sorted support (lazily computed, shared)
  struct Aff* aff; uint8_t xd;            // GF(2) normal form per bit (lazily), longest chain of xors
  uint32_t ep; uint64_t ev;               // evaluation memo
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

static inline double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asF(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static inline uint64_t dBits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline uint64_t fBits(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }

struct ExprHash { size_t operator()(const Expr* e) const { return (size_t)e->h; } };
struct ExprEq { bool operator()(const Expr* x, const Expr* y) const {
  return x->k == y->k && x->w == y->w && x->aux == y->aux && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };

static std::unordered_set<Expr*, ExprHash, ExprEq> g_exprs;
static uint32_t g_nexpr = 0;

static Expr* mkRaw(K k, unsigned w, unsigned aux, uint64_t c, Expr* a, Expr* b, Expr* d) {
  Expr t; memset(&t, 0, sizeof t);
  t.k = k; t.w = (uint8_t)w; t.aux = (uint8_t)aux; t.c = c; t.a = a; t.b = b; t.d = d;
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](uint64_t x) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; };
  mix(k | (w << 8) | (aux << 16)); mix(c); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
  t.h = h;
  auto it = g_exprs.find(&t);
  if (it != g_exprs.end()) return *it;
  Expr* e = (Expr*)malloc(sizeof(Expr)); *e = t; e->id = g_nexpr++;
  e->fp = k >= K_FADD || (a && a->fp) || (b && b->fp) || (d && d->fp);
  unsigned xd = 0; for (Expr* x : {a, b, d}) if (x && x->xd > xd) xd = x->xd;
  if (k == K_XOR || (k == K_ITE && b->k == K_CONST && d->k == K_CONST)) xd++;
  e->xd = (uint8_t)(xd > 250 ? 250 : xd);
  g_exprs.insert(e);
  return e;
}

static Expr* mkC(uint64_t v, unsigned w) { return mkRaw(K_CONST, w, 0, v & maskw(w), 0, 0, 0); }
static inline bool isC(const Expr* e) { return e->k == K_CONST; }
static inline bool isC(const Expr* e, uint64_t v) { return e->k == K_CONST && e->c == (v & maskw(e->w)); }

// ---- concrete semantics ----------------------------------------------------------------------
static uint64_t fop(K k, unsigned w, uint64_t x, uint64_t y) {
  if (w == 64) { double a = asD(x), b = asD(y); switch (k) { case K_FADD: return dBits(a + b); case K_FSUB: return dBits(a - b); case K_FMUL: return dBits(a * b); case K_FDIV: return dBits(a / b); case K_FREM: return dBits(fmod(a, b)); default: break; } }
  else { float a = asF(x), b = asF(y); switch (k) { case K_FADD: return fBits(a + b); case K_FSUB: return fBits(a - b); case K_FMUL: return fBits(a * b); case K_FDIV: return fBits(a / b); case K_FREM: return fBits(fmodf(a, b)); default: break; } }
  return 0;
}
static bool fcmp(K k, unsigned w, uint64_t x, uint64_t y) {
  double a = w == 64 ? asD(x) : (double)asF(x), b = w == 64 ? asD(y) : (double)asF(y);
  switch (k) { case K_FEQ: return a == b; case K_FLT: return a < b; case K_FLE: return a <= b; case K_FUNO: return a != a || b != b; default: return false; }
}
static uint64_t frnd(unsigned kind, unsigned w, uint64_t x) {
  double a = w == 64 ? asD(x) : (double)asF(x), r = a;
  switch (kind) { case 0: r = floor(a); break; case 1: r = ceil(a); break; case 2: r = trunc(a); break; case 3: r = nearbyint(a); break; case 4: r = round(a); break; }
  return w == 64 ? dBits(r) : fBits((float)r);
}
static uint64_t ftoi(bool sgn, unsigned fw, unsigned w, uint64_t x) {   // x86 semantics for in-range; 'indefinite' otherwise
  double a = fw == 64 ? asD(x) : (double)asF(x);
  if (sgn) { if (!(a >= -9223372036854775808.0 && a < 9223372036854775808.0)) return (1ull << 63) & maskw(w); return (uint64_t)(int64_t)a & maskw(w); }
  if (!(a > -1.0 && a < 18446744073709551616.0)) return 0; return (uint64_t)a & maskw(w);
}
static uint64_t cbin(K k, unsigned w, uint64_t x, uint64_t y) {
  uint64_t m = maskw(w); x &= m; y &= m;
  switch (k) {
    case K_ADD: return (x + y) & m; case K_SUB: return (x - y) & m; case K_MUL: return (x * y) & m;
    case K_UDIV: return y ? x / y : m; case K_UREM: return y ? x % y : x;
    case K_SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - (uint64_t)a) & m; return (uint64_t)(a / b) & m; }
    case K_SREM: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
    case K_AND: return x & y; case K_OR: return x | y; case K_XOR: return x ^ y;
    case K_SHL: return y >= w ? 0 : (x << y) & m; case K_LSHR: return y >= w ? 0 : x >> y;
    case K_ASHR: { int64_t a = sx(x, w); if (y >= w) y = w - 1; return (uint64_t)(a >> y) & m; }
    case K_EQ: return x == y; case K_ULT: return x < y; case K_ULE: return x <= y;
    case K_SLT: return sx(x, w) < sx(y, w); case K_SLE: return sx(x, w) <= sx(y, w);
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: return fop(k, w, x, y);
    case K_FEQ: case K_FLT: case K_FLE: case K_FUNO: return fcmp(k, w, x, y);
    default: abort();
  }
}
static bool isCmp(K k) { return (k >= K_EQ && k <= K_SLE) || (k >= K_FEQ && k <= K_FUNO); }

// ---- smart constructors ----------------------------------------------------------------------
static Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
static Expr* mkConcat(Expr* hi, Expr* lo);
static Expr* mkZext(Expr* e, unsigned w);
static Expr* mkSext(Expr* e, unsigned w);
static Expr* mkIte(Expr* c, Expr* t, Expr* f);
static Expr* mkBin(K k, Expr* a, Expr* b);

struct Seg { unsigned w; Expr* e; };     // e==null: zero bits.  LSB first.
static bool segs(Expr* e, std::vector<Seg>& out, int depth = 0) {
  // decomposes e into pieces; always succeeds (a leaf is one piece)
  switch (e->k) {
    case K_CONST: {
      if (e->c == 0) { out.push_back({e->w, nullptr}); return true; }
      unsigned tz = __builtin_ctzll(e->c), lz = e->w - (64 - __builtin_clzll(e->c));
      if (tz) out.push_back({tz, nullptr});
      out.push_back({e->w - tz - lz, mkC(e->c >> tz, e->w - tz - lz)});
      if (lz) out.push_back({lz, nullptr});
      return true;
    }
    case K_ZEXT: segs(e->a, out, depth + 1); out.push_back({(unsigned)(e->w - e->a->w), nullptr}); return true;
    case K_CONCAT: segs(e->b, out, depth + 1); segs(e->a, out, depth + 1); return true;
    default: out.push_back({e->w, e}); return true;
  }
}
static Expr* fromSegs(std::vector<Seg>& s) {
  Expr* r = nullptr;
  for (size_t i = 0; i < s.size(); i++) {
    unsigned w = s[i].w; Expr* e = s[i].e;
    if (!e) { while (i + 1 < s.size() && !s[i + 1].e) { w += s[i + 1].w; i++; } e = mkC(0, w); }
    r = r ? mkConcat(e, r) : e;
  }
  return r;
}
// a|b (== a+b == a^b) when at every bit position at most one is non-zero by structure
static Expr* mergeDisjoint(Expr* a, Expr* b) {
  auto interesting = [](Expr* e) { return e->k == K_ZEXT || e->k == K_CONCAT || e->k == K_CONST; };
  if (!interesting(a) || !interesting(b)) return nullptr;
  std::vector<Seg> x, y; segs(a, x); segs(b, y);
  std::vector<Seg> o; size_t i = 0, j = 0; unsigned xo = 0, yo = 0; bool zx = false, zy = false;
  while (i < x.size() && j < y.size()) {
    unsigned n = std::min(x[i].w - xo, y[j].w - yo);
    if (x[i].e && y[j].e) return nullptr;
    if (x[i].e) { zx = true; o.push_back({n, mkExtract(x[i].e, xo, n)}); }
    else if (y[j].e) { zy = true; o.push_back({n, mkExtract(y[j].e, yo, n)}); }
    else o.push_back({n, nullptr});
    xo += n; yo += n;
    if (xo == x[i].w) { i++; xo = 0; }
    if (yo == y[j].w) { j++; yo = 0; }
  }
  if (!zx || !zy) return zx ? a : b;
  return fromSegs(o);
}

static Expr* mkNot(Expr* e) { return mkBin(K_XOR, e, mkC(1, 1)); }
static inline bool isNot(Expr* e) { return e->w == 1 && e->k == K_XOR && isC(e->b, 1); }

static Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  switch (e->k) {
    case K_CONST: return mkC(e->c >> lo, w);
    case K_EXTRACT: return mkExtract(e->a, e->aux + lo, w);
    case K_CONCAT: {
      unsigned lw = e->b->w;
      if (lo + w <= lw) return mkExtract(e->b, lo, w);
      if (lo >= lw) return mkExtract(e->a, lo - lw, w);
      return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
    }
    case K_ZEXT: {
      unsigned iw = e->a->w;
      if (lo >= iw) return mkC(0, w);
      if (lo + w <= iw) return mkExtract(e->a, lo, w);
      return mkZext(mkExtract(e->a, lo, iw - lo), w);
    }
    case K_SEXT: {
      unsigned iw = e->a->w;
      if (lo + w <= iw) return mkExtract(e->a, lo, w);
      if (lo < iw) return mkSext(mkExtract(e->a, lo, iw - lo), w);
      return mkSext(mkExtract(e->a, iw - 1, 1), w);
    }
    case K_AND: case K_OR: case K_XOR: return mkBin(e->k, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case K_ADD: case K_SUB: case K_MUL: if (lo == 0) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w)); break;
    case K_ITE: if (isC(e->b) || isC(e->d) || e->b->k == K_CONCAT || e->d->k == K_CONCAT || e->b->k==K_ZEXT || e->d->k==K_ZEXT)
                  return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->d, lo, w)); break;
    default: break;
  }
  return mkRaw(K_EXTRACT, w, lo, 0, e, 0, 0);
}
static Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkC((hi->c << lo->w) | lo->c, w);
  if (isC(hi, 0)) return mkZext(lo, w);
  if (lo->k == K_CONCAT || hi->k == K_CONCAT) {
    // right-fold normal form: CONCAT(piece, rest) with rest holding the lower bits
    if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
    // merge hi with lo->a if adjacent extracts / constants
    Expr* t = lo->a;
    if ((isC(hi) && isC(t)) || (hi->k == K_EXTRACT && ((t->k == K_EXTRACT && t->a == hi->a && hi->aux == t->aux + t->w))))
      return mkConcat(mkConcat(hi, t), lo->b);
  }
  if (hi->k == K_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  if (lo->k == K_ZEXT && isC(hi)) return mkRaw(K_CONCAT, w, 0, 0, mkC(hi->c << (lo->w - lo->a->w), w - lo->a->w), lo->a, 0);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  return mkRaw(K_CONCAT, w, 0, 0, hi, lo, 0);
}
static Expr* mkZext(Expr* e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e)) return mkC(e->c, w);
  if (e->k == K_ZEXT) return mkZext(e->a, w);
  if (e->k == K_ITE && isC(e->b) && isC(e->d)) return mkIte(e->a, mkC(e->b->c, w), mkC(e->d->c, w));
  if (e->k == K_CONCAT && isC(e->a, 0)) return mkZext(e->b, w);
  return mkRaw(K_ZEXT, w, 0, 0, e, 0, 0);
}
static Expr* mkSext(Expr* e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e)) return mkC((uint64_t)sx(e->c, e->w), w);
  if (e->k == K_SEXT) return mkSext(e->a, w);
  if (e->k == K_ZEXT) return mkZext(e->a, w);
  if (e->k == K_ITE && isC(e->b) && isC(e->d)) return mkIte(e->a, mkSext(e->b, w), mkSext(e->d, w));
  return mkRaw(K_SEXT, w, 0, 0, e, 0, 0);
}
static Expr* mkIte(Expr* c, Expr* t, Expr* f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (isNot(c)) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isC(t, 1) && isC(f, 0)) return c;
    if (isC(t, 0) && isC(f, 1)) return mkNot(c);
    if (isC(t, 1)) return mkBin(K_OR, c, f);
    if (isC(t, 0)) return mkBin(K_AND, mkNot(c), f);
    if (isC(f, 0)) return mkBin(K_AND, c, t);
    if (isC(f, 1)) return mkBin(K_OR, mkNot(c), t);
  }
  if (t->k == K_ITE && t->a == c) t = t->b;
  if (f->k == K_ITE && f->a == c) f = f->d;
  if (t == f) return t;
  return mkRaw(K_ITE, t->w, 0, 0, c, t, f);
}

static bool comm(K k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ || k == K_FADD || k == K_FMUL || k == K_FEQ || k == K_FUNO; }


// ---- GF(2)-linear normal form: each bit as a xor of atoms; makes checksum arithmetic canonical ----
struct AffBit { std::vector<uint32_t> at; bool c; bool ok; };
struct Aff { std::vector<AffBit> b; };
static std::unordered_map<uint32_t, Expr*> g_atom; static size_t g_affCost = 0;
static AffBit affX(const AffBit& x, const AffBit& y) {
  AffBit r; r.ok = x.ok && y.ok; r.c = x.c ^ y.c; if (!r.ok) return r;
  std::set_symmetric_difference(x.at.begin(), x.at.end(), y.at.begin(), y.at.end(), std::back_inserter(r.at)); if (r.at.size() > 4096) { r.ok = false; r.at.clear(); } g_affCost += r.at.size(); return r;
}
static inline bool affC(const AffBit& x) { return x.ok && x.at.empty(); }
static const Aff& affOf(Expr* e) {
  if (e->aff) return *e->aff;
  Aff* r = new Aff; r->b.resize(e->w); unsigned w = e->w; const AffBit bad = {{}, false, false}, zero = {{}, false, true};
  auto atom = [&]() { for (unsigned i = 0; i < w; i++) { Expr* x = w == 1 ? e : mkExtract(e, i, 1); g_atom[x->id] = x; r->b[i] = {{x->id}, false, true}; } };
  auto opaque = [&]() { for (unsigned i = 0; i < w; i++) r->b[i] = bad; };
  switch (e->k) {
    case K_CONST: for (unsigned i = 0; i < w; i++) r->b[i] = {{}, (bool)(e->c >> i & 1), true}; break;
    case K_SYM: atom(); break;
    case K_CONCAT: { auto& h = affOf(e->a); auto& l = affOf(e->b); for (unsigned i = 0; i < w; i++) r->b[i] = i < e->b->w ? l.b[i] : h.b[i - e->b->w]; break; }
    case K_EXTRACT: if (e->a->k == K_SYM && w == 1) { atom(); break; } { auto& x = affOf(e->a); for (unsigned i = 0; i < w; i++) r->b[i] = x.b[i + e->aux]; break; }
    case K_ZEXT: { auto& x = affOf(e->a); for (unsigned i = 0; i < w; i++) r->b[i] = i < e->a->w ? x.b[i] : zero; break; }
    case K_SEXT: { auto& x = affOf(e->a); for (unsigned i = 0; i < w; i++) r->b[i] = x.b[i < e->a->w ? i : e->a->w - 1]; break; }
    case K_XOR: { auto& x = affOf(e->a); auto& y = affOf(e->b); for (unsigned i = 0; i < w; i++) r->b[i] = affX(x.b[i], y.b[i]); break; }
    case K_AND: case K_OR: { auto& x = affOf(e->a); auto& y = affOf(e->b); bool o = e->k == K_OR;
      for (unsigned i = 0; i < w; i++) { const AffBit &p = x.b[i], &q = y.b[i]; if (affC(p)) r->b[i] = p.c == o ? p : q; else if (affC(q)) r->b[i] = q.c == o ? q : p; else if (p.ok && q.ok && p.at == q.at && p.c == q.c) r->b[i] = p; else r->b[i] = bad; } break; }
    case K_SHL: case K_LSHR: case K_ASHR: { if (!isC(e->b)) { opaque(); break; } auto& x = affOf(e->a); int64_t n = e->b->c > w ? w : (int64_t)e->b->c;
      for (int64_t i = 0; i < (int64_t)w; i++) { int64_t j = e->k == K_SHL ? i - n : i + n; r->b[i] = j < 0 ? zero : j >= (int64_t)w ? (e->k == K_ASHR ? x.b[w - 1] : zero) : x.b[j]; } break; }
    case K_ITE: { auto& c = affOf(e->a); auto& t = affOf(e->b); auto& f = affOf(e->d);
      for (unsigned i = 0; i < w; i++) { AffBit d = affX(t.b[i], f.b[i]); if (!affC(d)) r->b[i] = bad; else r->b[i] = d.c ? affX(f.b[i], c.b[0]) : f.b[i]; } break; }
    case K_SUB: { if (!isC(e->a, 0)) { opaque(); break; } auto& y = affOf(e->b); for (unsigned i = 1; i < w; i++) if (!affC(y.b[i]) || y.b[i].c) { opaque(); goto done; } for (unsigned i = 0; i < w; i++) r->b[i] = y.b[0]; break; }
    case K_ADD: { auto& x = affOf(e->a); auto& y = affOf(e->b); bool dis = true; for (unsigned i = 0; i < w && dis; i++) dis = (affC(x.b[i]) && !x.b[i].c) || (affC(y.b[i]) && !y.b[i].c); if (!dis) { opaque(); break; } for (unsigned i = 0; i < w; i++) r->b[i] = affX(x.b[i], y.b[i]); break; }
    case K_MUL: { Expr *x = e->a, *y = e->b; if (isC(x)) std::swap(x, y); if (!isC(y)) { opaque(); break; } auto& p = affOf(x); for (unsigned i = 1; i < w; i++) if (!affC(p.b[i]) || p.b[i].c) { opaque(); goto done; } for (unsigned i = 0; i < w; i++) r->b[i] = y->c >> i & 1 ? p.b[0] : zero; break; }
    case K_EQ: { auto& x = affOf(e->a); auto& y = affOf(e->b); int n = 0; AffBit one = zero; bool ne = false, ok = true;
      for (unsigned i = 0; i < e->a->w; i++) { AffBit d = affX(x.b[i], y.b[i]); if (!d.ok) ok = false; else if (affC(d)) ne |= d.c; else { n++; one = d; } }
      if (ne) r->b[0] = zero; else if (ok && n <= 1) { r->b[0] = one; r->b[0].c ^= true; } else r->b[0] = bad; break; }
    case K_SLT: if (isC(e->b, 0)) { r->b[0] = affOf(e->a).b[e->a->w - 1]; break; } if (isC(e->a, maskw(e->a->w))) { r->b[0] = affOf(e->b).b[e->b->w - 1]; r->b[0].c ^= true; break; } opaque(); break;
    case K_ULT: if (isC(e->a, maskw(e->a->w) >> 1)) { r->b[0] = affOf(e->b).b[e->b->w - 1]; break; } if (isC(e->b, (maskw(e->b->w) >> 1) + 1)) { r->b[0] = affOf(e->a).b[e->a->w - 1]; r->b[0].c ^= true; break; } opaque(); break;
    default: opaque();
  }
  done: e->aff = r; return *r;
}
// canonical form of a == b, or null where the two are not (sufficiently) linear
static Expr* affEq(Expr* a, Expr* b) {
  auto& x = affOf(a); auto& y = affOf(b); std::vector<AffBit> d; size_t n = 0;
  for (unsigned i = 0; i < a->w; i++) { AffBit z = affX(x.b[i], y.b[i]); if (!z.ok) return nullptr; if (affC(z) && z.c) return mkC(0, 1); n += z.at.size(); if (!z.at.empty()) d.push_back(z); }
  if (n > 20000) return nullptr;
  Expr* r = mkC(1, 1);
  for (auto& z : d) { Expr* t = nullptr; for (uint32_t id : z.at) t = t ? mkBin(K_XOR, t, g_atom[id]) : g_atom[id]; r = mkBin(K_AND, r, z.c ? t : mkNot(t)); }
  return r;
}

// comparisons of a converted integer with a constant are integer comparisons (conversion is monotone)
static Expr* cmpConv(K k, Expr* a, Expr* b) {
  bool sw = isC(a); Expr* x = sw ? b : a; Expr* c = sw ? a : b; if (!isC(c) || (x->k != K_SITOF && x->k != K_UITOF)) return nullptr;
  unsigned w = x->w, n = x->a->w; bool sg = x->k == K_SITOF; double v = w == 64 ? asD(c->c) : (double)asF((uint32_t)c->c); if (v != v) return mkC(k == K_FUNO, 1);
  if (k == K_FUNO) return mkC(0, 1);
  auto conv = [&](__int128 i) { return w == 64 ? (sg ? (double)(int64_t)i : (double)(uint64_t)i) : (double)(sg ? (float)(int64_t)i : (float)(uint64_t)i); };
  __int128 lo = sg ? -((__int128)1 << (n - 1)) : 0, hi = sg ? ((__int128)1 << (n - 1)) - 1 : (((__int128)1 << n) - 1);
  auto count = [&](bool strict) { __int128 l = lo, h = hi + 1; while (l < h) { __int128 m = l + (h - l) / 2; double d = conv(m); if (strict ? d < v : d <= v) l = m + 1; else h = m; } return l; };   // first i not below (or equal)
  auto below = [&](__int128 t) -> Expr* { if (t <= lo) return mkC(0, 1); if (t > hi) return mkC(1, 1); return mkBin(sg ? K_SLT : K_ULT, x->a, mkC((uint64_t)t, n)); };   // x < t
  if (k == K_FEQ) return mkBin(K_AND, mkNot(below(count(true))), below(count(false)));
  bool strict = k == K_FLT;
  if (!sw) return below(count(strict));            // x < c, x <= c
  return mkNot(below(count(!strict)));             // c < x: not (x <= c); c <= x: not (x < c)
}

static Expr* mkBin(K k, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch k=%d %d %d\n", k, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkC(cbin(k, w, a->c, b->c), isCmp(k) ? 1 : w);
  if (comm(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  uint64_t M = maskw(w);
  switch (k) {
    case K_ADD:
      if (isC(b, 0)) return a;
      if (w == 1) return mkBin(K_XOR, a, b);
      if (isC(b) && a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkC(a->b->c + b->c, w));
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
      if (!isC(b) || (a->k == K_CONCAT)) if (Expr* m = mergeDisjoint(a, b)) return m;
      break;
    case K_SUB:
      if (isC(b)) return mkBin(K_ADD, a, mkC(0 - b->c, w));
      if (a == b) return mkC(0, w);
      if (w == 1) return mkBin(K_XOR, a, b);
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkC(0 - b->b->c, w));
      if (a->k == K_ADD && a->a == b) return a->b;
      if (a->k == K_ADD && a->b == b) return a->a;
      break;
    case K_MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && (b->c & (b->c - 1)) == 0) return mkBin(K_SHL, a, mkC(__builtin_ctzll(b->c), w));
      if (w == 1) return mkBin(K_AND, a, b);
      break;
    case K_UDIV: if (isC(b, 1)) return a;
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_LSHR, a, mkC(__builtin_ctzll(b->c), w));
      break;
    case K_SDIV: if (isC(b, 1)) return a; break;
    case K_UREM: if (isC(b, 1)) return mkC(0, w);
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_AND, a, mkC(b->c - 1, w));
      break;
    case K_AND:
      if (isC(b, 0)) return b;
      if (isC(b, M)) return a;
      if (a == b) return a;
      if (w == 1 && ((isNot(a) && a->a == b) || (isNot(b) && b->a == a))) return mkC(0, 1);
      if (isC(b)) {
        if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkC(a->b->c & b->c, w));
        if (a->k == K_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkC(a->b->c & b->c, w), mkC(a->d->c & b->c, w));
        // contiguous masks become extract/concat
        uint64_t c = b->c; unsigned tz = __builtin_ctzll(c); uint64_t r = c >> tz;
        if ((r & (r + 1)) == 0) {
          unsigned n = __builtin_popcountll(r);
          Expr* x = mkExtract(a, tz, n);
          if (tz) x = mkConcat(x, mkC(0, tz));
          return mkZext(x, w);
        }
        if (a->k == K_CONCAT) return mkConcat(mkBin(K_AND, a->a, mkC(b->c >> a->b->w, a->a->w)), mkBin(K_AND, a->b, mkC(b->c, a->b->w)));
        if (a->k == K_ZEXT) return mkZext(mkBin(K_AND, a->a, mkC(b->c, a->a->w)), w);
      }
      break;
    case K_OR:
      if (isC(b, 0)) return a;
      if (isC(b, M)) return b;
      if (a == b) return a;
      if (w == 1 && ((isNot(a) && a->a == b) || (isNot(b) && b->a == a))) return mkC(1, 1);
      if (w > 1) if (Expr* m = mergeDisjoint(a, b)) return m;
      if (isC(b) && a->k == K_OR && isC(a->b)) return mkBin(K_OR, a->a, mkC(a->b->c | b->c, w));
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkConcat(mkBin(K_OR, a->a, b->a), mkBin(K_OR, a->b, b->b));
      if (a->k == K_CONCAT && isC(b)) return mkConcat(mkBin(K_OR, a->a, mkC(b->c >> a->b->w, a->a->w)), mkBin(K_OR, a->b, mkC(b->c, a->b->w)));
      break;
    case K_XOR:
      if (isC(b, 0)) return a;
      if (a == b) return mkC(0, w);
      if (isC(b) && a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkC(a->b->c ^ b->c, w));
      if (w > 1 && !isC(b)) if (Expr* m = mergeDisjoint(a, b)) return m;
      if (w == 1 && isC(b, 1)) {
        // push negation into order comparisons: !(a<b) == b<=a
        if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
        if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
        if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
        if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
      }
      break;
    case K_SHL:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkC(0, w);
        return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkC(0, (unsigned)b->c));
      }
      if (isC(a, 0)) return a;
      break;
    case K_LSHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkC(0, w);
        return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
      }
      if (isC(a, 0)) return a;
      break;
    case K_ASHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSext(mkExtract(a, s, w - s), w);
      }
      break;
    case K_EQ:
      if (a == b) return mkC(1, 1);
      if (a->xd + b->xd >= 6) { Expr* r = affEq(a, b); if (r) return r; }
      if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
      if (isC(b)) {
        if (a->k == K_ZEXT) { if (b->c & ~maskw(a->a->w)) return mkC(0, 1); return mkBin(K_EQ, a->a, mkC(b->c, a->a->w)); }
        if (a->k == K_SEXT) { if ((uint64_t)sx(b->c, a->a->w) != (uint64_t)sx(b->c, w)) return mkC(0, 1); return mkBin(K_EQ, a->a, mkC(b->c, a->a->w)); }
        if (a->k == K_ITE) {
          if (isC(a->b) || isC(a->d)) {
            return mkIte(a->a, mkBin(K_EQ, a->b, b), mkBin(K_EQ, a->d, b));
          }
        }
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkC(b->c - a->b->c, w));
        if (a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkC(b->c ^ a->b->c, w));
        if (a->k == K_CONCAT && (isC(a->a) || isC(a->b))) {
          return mkBin(K_AND, mkBin(K_EQ, a->a, mkC(b->c >> a->b->w, a->a->w)), mkBin(K_EQ, a->b, mkC(b->c, a->b->w)));
        }
      } else {
        if (a->k == K_ZEXT && b->k == K_ZEXT) {
          unsigned n = std::max(a->a->w, b->a->w);
          return mkBin(K_EQ, mkZext(a->a, n), mkZext(b->a, n));
        }
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w && (a->a == b->a || a->b == b->b)) return a->a == b->a ? mkBin(K_EQ, a->b, b->b) : mkBin(K_EQ, a->a, b->a);
      }
      break;
    case K_ULT:
      if (a == b) return mkC(0, 1);
      if (isC(b, 0)) return mkC(0, 1);
      if (isC(a, M)) return mkC(0, 1);
      if (isC(b, 1)) return mkBin(K_EQ, a, mkC(0, w));
      if (isC(a, 0)) return mkNot(mkBin(K_EQ, b, mkC(0, w)));
      if (isC(b) && a->k == K_ZEXT) { if (b->c > maskw(a->a->w)) return mkC(1, 1); return mkBin(K_ULT, a->a, mkC(b->c, a->a->w)); }
      if (isC(a) && b->k == K_ZEXT) { if (a->c >= maskw(b->a->w)) return mkC(0, 1); return mkBin(K_ULT, mkC(a->c, b->a->w), b->a); }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULT, a->a, b->a);
      break;
    case K_ULE:
      if (a == b) return mkC(1, 1);
      if (isC(b, M)) return mkC(1, 1);
      if (isC(a, 0)) return mkC(1, 1);
      if (isC(b, 0)) return mkBin(K_EQ, a, b);
      if (isC(b)) return mkBin(K_ULT, a, mkC(b->c + 1, w));
      if (isC(a)) return mkBin(K_ULT, mkC(a->c - 1, w), b);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULE, a->a, b->a);
      break;
    case K_SLT:
      if (a == b) return mkC(0, 1);
      if (w > 1 && a->k == K_ZEXT && b->k == K_ZEXT) return mkBin(K_ULT, a, b);
      if (w > 1 && a->k == K_ZEXT && isC(b)) { if (sx(b->c, w) <= 0) return mkC(0, 1); return mkBin(K_ULT, a, b); }
      if (w > 1 && b->k == K_ZEXT && isC(a)) { if (sx(a->c, w) < 0) return mkC(1, 1); return mkBin(K_ULT, a, b); }
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(K_SLT, a->a, b->a);
      break;
    case K_SLE:
      if (a == b) return mkC(1, 1);
      if (isC(b) && sx(b->c, w) != sx(M >> 1, w)) return mkBin(K_SLT, a, mkC(b->c + 1, w));
      if (isC(a) && sx(a->c, w) != sx(1ull << (w - 1), w)) return mkBin(K_SLT, mkC(a->c - 1, w), b);
      if (w > 1 && a->k == K_ZEXT && b->k == K_ZEXT) return mkBin(K_ULE, a, b);
      break;
    default: break;
  }
  if (k == K_FMUL || k == K_FADD) {   // exact identities on finite operands (a converted integer is finite and never -0)
    Expr *x = a, *c = b; if (isC(x)) std::swap(x, c);
    uint64_t one = w == 64 ? dBits(1.0) : fBits(1.0f); bool conv = x->k == K_SITOF || x->k == K_UITOF;
    if (k == K_FMUL && isC(c, one) && conv) return x;
    if (k == K_FADD && isC(c, 0) && conv) return x;
    if (k == K_FADD && isC(c) && x->k == K_FMUL && (isC(x->a, one) || isC(x->b, one))) return mkBin(K_FADD, isC(x->a, one) ? x->b : x->a, c);
  }
  if (k >= K_FEQ && k <= K_FUNO && (isC(a) || isC(b))) { Expr* r = cmpConv(k, a, b); if (r) return r; }
  return mkRaw(k, isCmp(k) ? 1 : w, 0, 0, a, b, 0);
}
static Expr* mkUn(K k, Expr* a, unsigned w, unsigned aux = 0) {
  if (isC(a)) {
    switch (k) {
      case K_FEXT: return mkC(dBits((double)asF(a->c)), 64);
      case K_FTRUNC: return mkC(fBits((float)asD(a->c)), 32);
      case K_SITOF: return w == 64 ? mkC(dBits((double)sx(a->c, a->w)), 64) : mkC(fBits((float)sx(a->c, a->w)), 32);
      case K_UITOF: return w == 64 ? mkC(dBits((double)a->c), 64) : mkC(fBits((float)a->c), 32);
      case K_FTOSI: return mkC(ftoi(true, a->w, w, a->c), w);
      case K_FTOUI: return mkC(ftoi(false, a->w, w, a->c), w);
      case K_FSQRT: return w == 64 ? mkC(dBits(sqrt(asD(a->c))), 64) : mkC(fBits(sqrtf(asF(a->c))), 32);
      case K_FRND: return mkC(frnd(aux, w, a->c), w);
      default: break;
    }
  }
  if (k == K_SITOF && a->k == K_SEXT) return mkUn(K_SITOF, a->a, w);
  if (k == K_SITOF && a->k == K_ZEXT) return mkUn(K_UITOF, a->a, w);
  if (k == K_UITOF && a->k == K_ZEXT) return mkUn(K_UITOF, a->a, w);
  return mkRaw(k, w, aux, 0, a, 0, 0);
}

// ---- evaluation under a model ------------------------------------------------------------------
typedef std::vector<uint8_t> Model;    // indexed by symbol id (missing = 0)
static uint32_t g_epoch = 1;
static const Model* g_evm;
static uint64_t ev(Expr* e) {
  if (e->k == K_CONST) return e->c;
  if (e->ep == g_epoch) return e->ev;
  uint64_t r = 0; uint64_t m = maskw(e->w);
  switch (e->k) {
    case K_SYM: r = e->c < g_evm->size() ? (*g_evm)[e->c] : 0; break;
    case K_CONCAT: r = (ev(e->a) << e->b->w) | ev(e->b); break;
    case K_EXTRACT: r = (ev(e->a) >> e->aux) & m; break;
    case K_ZEXT: r = ev(e->a); break;
    case K_SEXT: r = (uint64_t)sx(ev(e->a), e->a->w) & m; break;
    case K_ITE: r = ev(e->a) ? ev(e->b) : ev(e->d); break;
    case K_FEXT: r = dBits((double)asF(ev(e->a))); break;
    case K_FTRUNC: r = fBits((float)asD(ev(e->a))); break;
    case K_SITOF: { int64_t v = sx(ev(e->a), e->a->w); r = e->w == 64 ? dBits((double)v) : fBits((float)v); break; }
    case K_UITOF: { uint64_t v = ev(e->a); r = e->w == 64 ? dBits((double)v) : fBits((float)v); break; }
    case K_FTOSI: r = ftoi(true, e->a->w, e->w, ev(e->a)); break;
    case K_FTOUI: r = ftoi(false, e->a->w, e->w, ev(e->a)); break;
    case K_FSQRT: { uint64_t v = ev(e->a); r = e->w == 64 ? dBits(sqrt(asD(v))) : fBits(sqrtf(asF(v))); break; }
    case K_FRND: r = frnd(e->aux, e->w, ev(e->a)); break;
    default: r = cbin(e->k, e->a->w, ev(e->a), ev(e->b)); break;
  }
  e->ep = g_epoch; e->ev = r; return r;
}
static uint64_t evalE(Expr* e, const Model& m) { g_evm = &m; g_epoch++; return ev(e); }

// ---- support -----------------------------------------------------------------------------------
static const std::vector<uint32_t>& support(Expr* e) {
  if (e->sup) return *e->sup;
  std::vector<uint32_t>* r = new std::vector<uint32_t>();
  if (e->k == K_SYM) r->push_back((uint32_t)e->c);
  else {
    Expr* ch[3] = {e->a, e->b, e->d};
    std::vector<uint32_t>* only = nullptr; int n = 0;
    for (Expr* x : ch) if (x && x->k != K_CONST) { support(x); if (!x->sup->empty()) { n++; only = x->sup; } }
    if (n == 1) { delete r; e->sup = only; return *only; }
    for (Expr* x : ch) if (x && x->k != K_CONST) { std::vector<uint32_t> t; std::set_union(r->begin(), r->end(), x->sup->begin(), x->sup->end(), std::back_inserter(t)); r->swap(t); }
  }
  e->sup = r; return *r;
}
