#include "expr.hpp"
#include <cmath>
#include <cstring>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>

std::vector<SymInfo> g_syms;
static uint32_t g_next = 1;
static std::vector<Expr*> g_tab(1 << 16, nullptr);
static size_t g_cnt = 0;
size_t exprCount() { return g_cnt; }

static inline uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static uint64_t hq(const mpq_class& q) {
  uint64_t h = 17; auto f = [&](mpz_srcptr z) { size_t n = mpz_size(z); for (size_t i = 0; i < n; i++) h = mix(h, mpz_getlimbn(z, i)); h = mix(h, mpz_sgn(z)); };
  f(q.get_num_mpz_t()); f(q.get_den_mpz_t()); return h;
}
static void grow() {
  std::vector<Expr*> n(g_tab.size() * 2, nullptr); size_t m = n.size() - 1;
  for (Expr* e : g_tab) if (e) { size_t i = e->h & m; while (n[i]) i = (i + 1) & m; n[i] = e; }
  g_tab.swap(n);
}
static char* g_arena = nullptr; static size_t g_left = 0;
static Expr* mk(K k, unsigned w, Expr* a, Expr* b, Expr* c, u128 v, const mpq_class* q = nullptr) {
  uint64_t h = mix((uint64_t)k * 131 + w, (uint64_t)a); h = mix(h, (uint64_t)b); h = mix(h, (uint64_t)c); h = mix(h, (uint64_t)v); h = mix(h, (uint64_t)(v >> 64));
  if (q) h = mix(h, hq(*q));
  size_t m = g_tab.size() - 1, i = h & m;
  while (Expr* e = g_tab[i]) {
    if (e->h == h && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->v == v && (!q || *e->q == *q)) return e;
    i = (i + 1) & m;
  }
  if (g_left < sizeof(Expr)) { g_left = 1 << 20; g_arena = (char*)aligned_alloc(64, g_left); }
  Expr* e = (Expr*)g_arena; g_arena += sizeof(Expr); g_left -= sizeof(Expr);
  e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->v = v; e->h = h; e->id = g_next++; e->q = q ? new mpq_class(*q) : nullptr;
  uint8_t f = 0; uint32_t d = 0;
  for (Expr* x : {a, b, c}) if (x) { f |= x->flags; if (x->depth + 1 > d) d = x->depth + 1; }
  if (k >= K::RConst || k == K::RToBV || k == K::FpBits) f |= F_REAL;
  if (k == K::RUF || k == K::RToBV || k == K::RFromBits || k == K::FpBits) f |= F_UFREAL;
  if (k == K::RSpecial) f |= F_SPECIAL;
  if (k == K::RMul && a->k != K::RConst && b->k != K::RConst) f |= F_NONLIN;
  if (k == K::RDiv) f |= F_NONLIN;
  e->flags = f; e->depth = d;
  g_tab[i] = e; if (++g_cnt * 2 > g_tab.size()) grow();
  return e;
}
Expr* eC(u128 v, unsigned w) { return mk(K::BConst, w, 0, 0, 0, v & maskw(w)); }
Expr* eTrue() { static Expr* t = eC(1, 1); return t; }
Expr* eFalse() { static Expr* t = eC(0, 1); return t; }
static Expr* newSym(const std::string& n, unsigned w, bool real, bool undef) {
  uint32_t id = g_syms.size(); g_syms.push_back({n, real, undef, w, nullptr});
  Expr* e = mk(real ? K::RSym : K::BSym, w, 0, 0, 0, id); if (undef) e->flags |= F_UNDEF;
  g_syms[id].e = e; return e;
}
Expr* eSym(const std::string& n, unsigned w, bool undef) { return newSym(n, w, false, undef); }
Expr* rSym(const std::string& n, bool undef) { return newSym(n, 64, true, undef); }
Expr* eNot(Expr* a) {
  if (isC(a)) return a->v ? eFalse() : eTrue();
  if (a->k == K::Xor && isC(a->b) && a->b->v == 1) return a->a;
  return mk(K::Xor, 1, a, eTrue(), 0, 0);
}
static bool isNot(Expr* a) { return a->w == 1 && a->k == K::Xor && isC(a->b) && a->b->v == 1; }

static Expr* fold(K k, Expr* a, Expr* b) {
  unsigned w = a->w; u128 x = a->v, y = b->v; i128 sx = sextw(x, w), sy = sextw(y, w);
  switch (k) {
    case K::Add: return eC(x + y, w); case K::Sub: return eC(x - y, w); case K::Mul: return eC(x * y, w);
    case K::UDiv: return y ? eC(x / y, w) : eC(~(u128)0, w); case K::URem: return y ? eC(x % y, w) : a;
    case K::SDiv: if (!y) return eC(sx < 0 ? 1 : ~(u128)0, w); if (sy == -1) return eC(-x, w); return eC((u128)(sx / sy), w);
    case K::SRem: if (!y) return a; if (sy == -1) return eC(0, w); return eC((u128)(sx % sy), w);
    case K::And: return eC(x & y, w); case K::Or: return eC(x | y, w); case K::Xor: return eC(x ^ y, w);
    case K::Shl: return eC(y >= w ? 0 : x << (unsigned)y, w); case K::LShr: return eC(y >= w ? 0 : x >> (unsigned)y, w);
    case K::AShr: return eC(y >= w ? (sx < 0 ? ~(u128)0 : 0) : (u128)(sx >> (unsigned)y), w);
    case K::Eq: return eC(x == y, 1); case K::Ult: return eC(x < y, 1); case K::Ule: return eC(x <= y, 1);
    case K::Slt: return eC(sx < sy, 1); case K::Sle: return eC(sx <= sy, 1);
    default: return nullptr;
  }
}
// unsigned upper bound known syntactically
static u128 ub(Expr* e, int d = 0) {
  u128 full = maskw(e->w); if (d > 6) return full;
  switch (e->k) {
    case K::BConst: return e->v;
    case K::ZExt: return ub(e->a, d + 1);
    case K::Ite: return std::max(ub(e->b, d + 1), ub(e->c, d + 1));
    case K::And: return std::min(ub(e->a, d + 1), ub(e->b, d + 1));
    case K::LShr: if (isC(e->b) && e->b->v < e->w) return ub(e->a, d + 1) >> (unsigned)e->b->v; return full;
    case K::URem: if (isC(e->b) && e->b->v) return e->b->v - 1; return full;
    case K::UDiv: if (isC(e->b) && e->b->v) return ub(e->a, d + 1) / e->b->v; return full;
    case K::Add: { u128 x = ub(e->a, d + 1), y = ub(e->b, d + 1); u128 s = x + y; if (s < x || s > full) return full; return s; }
    case K::Mul: { u128 x = ub(e->a, d + 1), y = ub(e->b, d + 1); if (e->w > 64 || x == 0 || y == 0) return x && y ? full : 0; if (x <= full / y) return x * y; return full; }
    case K::Concat: { u128 hi = ub(e->a, d + 1); return (hi << e->b->w) | ub(e->b, d + 1) | (hi ? maskw(e->b->w) : 0); }
    default: return full;
  }
}
Expr* eBin(K k, Expr* a, Expr* b) {
  if (isC(a) && isC(b)) if (Expr* r = fold(k, a, b)) return r;
  unsigned w = a->w; u128 M = maskw(w);
  bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
  if (comm) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  switch (k) {
    case K::Add:
      if (isC(b)) { if (b->v == 0) return a; if (a->k == K::Add && isC(a->b)) return eBin(K::Add, a->a, eC(a->b->v + b->v, w));
        if (a->k == K::Ite && (isC(a->b) || isC(a->c)) && a->depth < 40) return eIte(a->a, eBin(K::Add, a->b, b), eBin(K::Add, a->c, b)); }
      if (a->k == K::Add && isC(a->b)) return eBin(K::Add, eBin(K::Add, a->a, b), a->b);
      if (b->k == K::Add && isC(b->b)) return eBin(K::Add, eBin(K::Add, a, b->a), b->b);
      break;
    case K::Sub:
      if (a == b) return eC(0, w); if (isC(b)) return eBin(K::Add, a, eC(-b->v, w));
      if (a->k == K::Add && b->k == K::Add && isC(a->b) && isC(b->b)) return eBin(K::Add, eBin(K::Sub, a->a, b->a), eC(a->b->v - b->b->v, w));
      if (a->k == K::Add && a->a == b) return a->b; if (a->k == K::Add && a->b == b) return a->a;
      if (a->k == K::Add && isC(a->b)) return eBin(K::Add, eBin(K::Sub, a->a, b), a->b);
      if (b->k == K::Add && isC(b->b)) return eBin(K::Add, eBin(K::Sub, a, b->a), eC(-b->b->v, w));
      break;
    case K::Mul: if (isC(b)) { if (b->v == 0) return b; if (b->v == 1) return a; } break;
    case K::UDiv: if (isC(b) && b->v == 1) return a; if (isC(b) && b->v && ub(a) < b->v) return eC(0, w); break;
    case K::URem: if (isC(b) && b->v == 1) return eC(0, w); if (isC(b) && b->v && ub(a) < b->v) return a; break;
    case K::And: if (a == b) return a; if (isC(b)) { if (b->v == 0) return b; if (b->v == M) return a;
        if (a->k == K::ZExt && (maskw(a->a->w) & ~b->v) == 0) return a;
        if (a->k == K::Concat || a->k == K::ZExt) { u128 m = b->v; if ((m & (m + 1)) == 0) { unsigned n = 0; while (m >> n) n++; return eZExt(eExtract(a, 0, n), w); } }
      }
      if (w == 1) { if (isNot(a) && a->a == b) return eFalse(); if (isNot(b) && b->a == a) return eFalse(); }
      break;
    case K::Or: if (a == b) return a; if (isC(b)) { if (b->v == 0) return a; if (b->v == M) return b; }
      if (w == 1) { if (isNot(a) && a->a == b) return eTrue(); if (isNot(b) && b->a == a) return eTrue(); }
      // (zext hi << n) | zext lo  -> concat
      for (int s = 0; s < 2; s++) { Expr *x = s ? b : a, *y = s ? a : b;
        if (x->k == K::Concat && isC(x->b) && x->b->v == 0 && ub(y) <= maskw(x->b->w)) return eConcat(x->a, eExtract(y, 0, x->b->w)); }
      break;
    case K::Xor: if (a == b) return eC(0, w); if (isC(b) && b->v == 0) return a; if (w == 1 && isC(b)) return eNot(a); if (w == 1 && isNot(a)) return eNot(eBin(K::Xor, a->a, b)); if (w == 1 && isNot(b)) return eNot(eBin(K::Xor, a, b->a)); break;
    case K::Shl: if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return eC(0, w); return eConcat(eExtract(a, 0, w - (unsigned)b->v), eC(0, (unsigned)b->v)); } break;
    case K::LShr: if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return eC(0, w); return eZExt(eExtract(a, (unsigned)b->v, w - (unsigned)b->v), w); } break;
    case K::AShr: if (isC(b)) { if (b->v == 0) return a; unsigned s = b->v >= w ? w - 1 : (unsigned)b->v; return eSExt(eExtract(a, s, w - s), w); } break;
    case K::Eq:
      if (a == b) return eTrue();
      if (w == 1) { if (isC(b)) return b->v ? a : eNot(a); }
      if (isC(b)) {
        if (a->k == K::Add && isC(a->b)) return eEq(a->a, eC(b->v - a->b->v, w));
        if (a->k == K::ZExt) { if (b->v > maskw(a->a->w)) return eFalse(); return eEq(a->a, eC(b->v, a->a->w)); }
        if (a->k == K::SExt) { u128 lo = b->v & maskw(a->a->w); if ((u128)(sextw(lo, a->a->w)) != (u128)sextw(b->v, w)) return eFalse(); return eEq(a->a, eC(lo, a->a->w)); }
        if (a->k == K::Concat) return eAnd(eEq(a->a, eC(b->v >> a->b->w, a->a->w)), eEq(a->b, eC(b->v, a->b->w)));
        if (a->k == K::Ite) {
          if (isC(a->b) && isC(a->c)) { bool x = a->b->v == b->v, y = a->c->v == b->v; if (x && y) return eTrue(); if (!x && !y) return eFalse(); return x ? a->a : eNot(a->a); }
          if (isC(a->b)) { if (a->b->v == b->v) return eOr(a->a, eEq(a->c, b)); return eAnd(eNot(a->a), eEq(a->c, b)); }
          if (isC(a->c)) { if (a->c->v == b->v) return eOr(eNot(a->a), eEq(a->b, b)); return eAnd(a->a, eEq(a->b, b)); }
        }
        if (ub(a) < b->v) return eFalse();
      }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return eEq(a->a, b->a);
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return eEq(a->a, b->a);
      if (a->k == K::Add && b->k == K::Add && isC(a->b) && isC(b->b)) return eEq(a->a, eBin(K::Add, b->a, eC(b->b->v - a->b->v, w)));
      if (a->k == K::Add && (a->a == b)) return eEq(a->b, eC(0, w));
      break;
    case K::Ult:
      if (a == b) return eFalse();
      if (isC(b)) { if (b->v == 0) return eFalse(); if (b->v == 1) return eEq(a, eC(0, w)); if (ub(a) < b->v) return eTrue(); if (a->k == K::ZExt) { if (b->v > maskw(a->a->w)) return eTrue(); return eBin(K::Ult, a->a, eC(b->v, a->a->w)); } }
      if (isC(a)) { if (a->v == M) return eFalse(); if (ub(b) <= a->v) return eFalse(); if (a->v == 0) return eNot(eEq(b, a)); if (b->k == K::ZExt) { if (a->v >= maskw(b->a->w)) return eFalse(); return eBin(K::Ult, eC(a->v, b->a->w), b->a); } }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return eBin(K::Ult, a->a, b->a);
      if (a->k == K::Ite && isC(b) && isC(a->b) && isC(a->c)) return eIte(a->a, eBin(K::Ult, a->b, b), eBin(K::Ult, a->c, b));
      break;
    case K::Ule: return eNot(eBin(K::Ult, b, a));
    case K::Slt:
      if (a == b) return eFalse();
      if (a->k == K::FpBits && isC(b) && b->v == 0) return rCmp(K::RLt, a->a, rC(0));
      if (b->k == K::FpBits && isC(a) && a->v == maskw(w)) return eNot(rCmp(K::RLt, b->a, rC(0)));
      if (w > 1) { u128 half = maskw(w - 1); if (ub(a) <= half && ub(b) <= half) return eBin(K::Ult, a, b); }
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return eBin(K::Slt, a->a, b->a);
      if (a->k == K::SExt && isC(b)) { i128 s = sextw(b->v, w); unsigned n = a->a->w; i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1; if (s > hi) return eTrue(); if (s <= lo) return eFalse(); return eBin(K::Slt, a->a, eC((u128)s, n)); }
      if (b->k == K::SExt && isC(a)) { i128 s = sextw(a->v, w); unsigned n = b->a->w; i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1; if (s >= hi) return eFalse(); if (s < lo) return eTrue(); return eBin(K::Slt, eC((u128)s, n), b->a); }
      break;
    case K::Sle: return eNot(eBin(K::Slt, b, a));
    default: break;
  }
  bool cmp = k == K::Eq || k == K::Ult || k == K::Slt;
  return mk(k, cmp ? 1 : w, a, b, 0, 0);
}
Expr* eConcat(Expr* a, Expr* b) {
  if (isC(a) && isC(b)) return eC((a->v << b->w) | b->v, a->w + b->w);
  if (isC(a) && a->v == 0) return eZExt(b, a->w + b->w);
  if (a->k == K::Extract && b->k == K::Extract && a->a == b->a && (unsigned)a->v == (unsigned)b->v + b->w) return eExtract(a->a, (unsigned)b->v, a->w + b->w);
  if (b->k == K::Concat && a->k == K::Extract && b->a->k == K::Extract && a->a == b->a->a && (unsigned)a->v == (unsigned)b->a->v + b->a->w)
    return eConcat(eExtract(a->a, (unsigned)b->a->v, a->w + b->a->w), b->b);
  if (b->k == K::Concat && isC(a) && isC(b->a)) return eConcat(eConcat(a, b->a), b->b);
  return mk(K::Concat, a->w + b->w, a, b, 0, 0);
}
Expr* eExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return eC(a->v >> lo, w);
  switch (a->k) {
    case K::Extract: return eExtract(a->a, lo + (unsigned)a->v, w);
    case K::Concat: { unsigned bl = a->b->w; if (lo + w <= bl) return eExtract(a->b, lo, w); if (lo >= bl) return eExtract(a->a, lo - bl, w);
      return eConcat(eExtract(a->a, 0, lo + w - bl), eExtract(a->b, lo, bl - lo)); }
    case K::ZExt: { unsigned n = a->a->w; if (lo + w <= n) return eExtract(a->a, lo, w); if (lo >= n) return eC(0, w); return eZExt(eExtract(a->a, lo, n - lo), w); }
    case K::SExt: { unsigned n = a->a->w; if (lo + w <= n) return eExtract(a->a, lo, w); if (lo < n) return eSExt(eExtract(a->a, lo, n - lo), w); return eSExt(eExtract(a->a, n - 1, 1), w); }
    case K::Ite: if (isC(a->b) || isC(a->c) || a->depth < 8) return eIte(a->a, eExtract(a->b, lo, w), eExtract(a->c, lo, w)); break;
    case K::And: case K::Or: case K::Xor: return eBin(a->k, eExtract(a->a, lo, w), eExtract(a->b, lo, w));
    case K::Add: case K::Sub: case K::Mul: if (lo == 0) return eBin(a->k, eExtract(a->a, 0, w), eExtract(a->b, 0, w)); break;
    default: break;
  }
  return mk(K::Extract, w, a, 0, 0, lo);
}
Expr* eZExt(Expr* a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return eC(a->v, w);
  if (a->k == K::ZExt) return eZExt(a->a, w);
  if (a->k == K::Ite && (isC(a->b) || isC(a->c))) return eIte(a->a, eZExt(a->b, w), eZExt(a->c, w));
  return mk(K::ZExt, w, a, 0, 0, 0);
}
Expr* eSExt(Expr* a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return eC((u128)sextw(a->v, a->w), w);
  if (a->k == K::SExt) return eSExt(a->a, w); if (a->k == K::ZExt) return eZExt(a->a, w);
  if (a->w > 1 && ub(a) <= maskw(a->w - 1)) return eZExt(a, w);
  if (a->k == K::Ite && (isC(a->b) || isC(a->c))) return eIte(a->a, eSExt(a->b, w), eSExt(a->c, w));
  return mk(K::SExt, w, a, 0, 0, 0);
}
Expr* eIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->v ? a : b; if (a == b) return a;
  if (isNot(c)) return eIte(c->a, b, a);
  if (isR(a)) {
    if (a->k == K::RIte && a->a == c) a = a->b; if (b->k == K::RIte && b->a == c) b = b->c;
    return mk(K::RIte, 64, c, a, b, 0);
  }
  if (a->w == 1) {
    if (isC(a)) return a->v ? eOr(c, b) : eAnd(eNot(c), b);
    if (isC(b)) return b->v ? eOr(eNot(c), a) : eAnd(c, a);
  }
  if (a->k == K::Ite && a->a == c) a = a->b; if (b->k == K::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->k == K::Ite && b->b == a) return eIte(eOr(c, b->a), a, b->c);
  return mk(K::Ite, a->w, c, a, b, 0);
}

// ---------------- reals
Expr* rC(const mpq_class& q) { return mk(K::RConst, 64, 0, 0, 0, 0, &q); }
Expr* rSpecial(int kind) { return mk(K::RSpecial, 64, 0, 0, 0, kind); }
Expr* rD(double d) {
  if (std::isnan(d)) return rSpecial(3); if (std::isinf(d)) return rSpecial(d > 0 ? 1 : 2);
  return rC(mpq_class(d));
}
static const mpq_class Q0(0), Q1(1);
static bool isZ(Expr* e) { return isRC(e) && *e->q == Q0; }
static bool isO(Expr* e) { return isRC(e) && *e->q == Q1; }
double rToDouble(Expr* c) {
  if (c->k == K::RSpecial) return c->v == 1 ? INFINITY : c->v == 2 ? -INFINITY : NAN;
  mpq_class q = *c->q; double d = q.get_d(); // truncates; correct to nearest
  mpq_class err = q - mpq_class(d); if (err != 0) { double n = std::nextafter(d, err > 0 ? INFINITY : -INFINITY); if (std::isfinite(n)) { mpq_class e2 = q - mpq_class(n); if (abs(e2) < abs(err)) d = n; } }
  return d;
}
static int spec(Expr* e) { return e->k == K::RSpecial ? (int)e->v : 0; }
Expr* rAdd(Expr* a, Expr* b) {
  if (isRC(a) && isRC(b)) return rC(*a->q + *b->q);
  if (spec(a) || spec(b)) { int x = spec(a), y = spec(b); if (x == 3 || y == 3) return rSpecial(3); if (x && y) return x == y ? a : rSpecial(3); return x ? a : b; }
  if (isZ(a)) return b; if (isZ(b)) return a;
  if (isRC(a) || (!isRC(b) && a->id > b->id)) std::swap(a, b); // constant last
  if (isRC(b) && a->k == K::RAdd && isRC(a->b)) return rAdd(a->a, rC(*a->b->q + *b->q));
  // x + (-1*x)
  auto neg = [](Expr* x, Expr* y) { return x->k == K::RMul && isRC(x->b) && *x->b->q == -1 && x->a == y; };
  if (neg(a, b) || neg(b, a)) return rC(Q0);
  return mk(K::RAdd, 64, a, b, 0, 0);
}
Expr* rNeg(Expr* a) { if (spec(a)) return rSpecial(spec(a) == 1 ? 2 : spec(a) == 2 ? 1 : 3); static Expr* m1 = rC(mpq_class(-1)); return rMul(a, m1); }
Expr* rSub(Expr* a, Expr* b) { if (a == b && !spec(a)) return rC(Q0); return rAdd(a, rNeg(b)); }
Expr* rMul(Expr* a, Expr* b) {
  if (isRC(a) && isRC(b)) return rC(*a->q * *b->q);
  if (spec(a) || spec(b)) {
    if (!spec(a)) std::swap(a, b); if (spec(a) == 3 || spec(b) == 3) return rSpecial(3);
    int sb = 0; if (spec(b)) sb = spec(b) == 1 ? 1 : -1; else if (isRC(b)) sb = sgn(*b->q); else return mk(K::RMul, 64, a, b, 0, 0);
    if (!sb) return rSpecial(3); return rSpecial((spec(a) == 1) == (sb > 0) ? 1 : 2);
  }
  if (isZ(a)) return a; if (isZ(b)) return b; if (isO(a)) return b; if (isO(b)) return a;
  if (isRC(a) || (!isRC(b) && a->id > b->id)) std::swap(a, b);
  if (isRC(b)) {
    if (a->k == K::RMul && isRC(a->b)) return rMul(a->a, rC(*a->b->q * *b->q));
    if (a->k == K::RAdd && *b->q == -1) return rAdd(rMul(a->a, b), rMul(a->b, b));
    if (a->k == K::RDiv) return rDiv(rMul(a->a, b), a->b);
  }
  return mk(K::RMul, 64, a, b, 0, 0);
}
Expr* rDiv(Expr* a, Expr* b) {
  if (spec(a) || spec(b)) { if (spec(b) && spec(b) != 3 && !spec(a)) return rC(Q0); if (spec(a) && isRC(b)) return rMul(a, b); return rSpecial(3); }
  if (isRC(b)) {
    if (*b->q == 0) { if (isRC(a)) { int s = sgn(*a->q); return s == 0 ? rSpecial(3) : rSpecial(s > 0 ? 1 : 2); } return rSpecial(3); }
    return rMul(a, rC(Q1 / *b->q));
  }
  if (isZ(a)) return a; if (a == b) return rC(Q1);
  return mk(K::RDiv, 64, a, b, 0, 0);
}
bool rPositive(Expr* a) {
  switch (a->k) {
    case K::RConst: return sgn(*a->q) > 0;
    case K::RAdd: case K::RMul: case K::RDiv: return rPositive(a->a) && rPositive(a->b);
    case K::RUF: return a->v == UF_EXP;
    case K::RIte: return rPositive(a->b) && rPositive(a->c);
    default: return false;
  }
}
Expr* rUF(int fn, Expr* a, Expr* b) {
  switch (fn) {
    case UF_EXP:
      if (spec(a)) return spec(a) == 1 ? a : spec(a) == 2 ? rC(Q0) : a;
      if (isZ(a)) return rC(Q1);
      if (a->k == K::RAdd) return rMul(rUF(UF_EXP, a->a), rUF(UF_EXP, a->b));
      if (a->k == K::RMul && isRC(a->b)) {
        const mpq_class& q = *a->b->q;
        if (q < 0) return rDiv(rC(Q1), rUF(UF_EXP, rNeg(a)));
        if (q.get_den() == 1 && q <= 8) { Expr* x = rUF(UF_EXP, a->a); Expr* r = x; for (int i = 1; i < q.get_num().get_si(); i++) r = rMul(r, x); return r; }
      }
      if (isRC(a) && *a->q < 0) return rDiv(rC(Q1), rUF(UF_EXP, rNeg(a)));
      if (a->k == K::RUF && a->v == UF_LOG) return a->a;
      if (a->k == K::RIte) return eIte(a->a, rUF(UF_EXP, a->b), rUF(UF_EXP, a->c));
      break;
    case UF_LOG:
      if (isO(a)) return rC(Q0);
      if (a->k == K::RUF && a->v == UF_EXP) return a->a;
      if (a->k == K::RMul && rPositive(a->a) && rPositive(a->b)) return rAdd(rUF(UF_LOG, a->a), rUF(UF_LOG, a->b));
      if (a->k == K::RDiv && rPositive(a->a) && rPositive(a->b)) return rSub(rUF(UF_LOG, a->a), rUF(UF_LOG, a->b));
      break;
    case UF_SQRT:
      if (isRC(a) && sgn(*a->q) >= 0) { mpz_class n = sqrt(a->q->get_num()), d = sqrt(a->q->get_den()); if (n * n == a->q->get_num() && d * d == a->q->get_den()) { mpq_class r(n, d); return rC(r); } }
      break;
    case UF_POW:
      if (isRC(b) && b->q->get_den() == 1 && abs(*b->q) <= 8) { long n = b->q->get_num().get_si(); Expr* r = rC(Q1); for (long i = 0; i < std::labs(n); i++) r = rMul(r, a); return n < 0 ? rDiv(rC(Q1), r) : r; }
      if (isRC(b) && *b->q == mpq_class(1, 2)) return rUF(UF_SQRT, a);
      break;
    case UF_FLOOR:
      if (isRC(a)) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), a->q->get_num_mpz_t(), a->q->get_den_mpz_t()); return rC(mpq_class(z)); }
      if (a->k == K::RFromBV) return a;
      break;
    case UF_ROUND6:
      if (a->k == K::RUF && a->v == UF_ROUND6) return a;
      if (isRC(a)) { mpq_class x = *a->q * 1000000 ; if (x.get_den() == 1) return a; }
      break;
  }
  return mk(K::RUF, 64, a, b, 0, fn);
}
static bool rangeOf(Expr* e, mpq_class& lo, mpq_class& hi, int d = 0) { // interval, cheap
  if (d > 12) return false;
  switch (e->k) {
    case K::RConst: lo = hi = *e->q; return true;
    case K::RFromBV: {
      if (e->v == 0) { u128 m = ub(e->a); if (m >> 62) return false; lo = 0; hi = mpq_class((unsigned long)m); return true; }
      if (e->a->w > 62) return false; long b = 1L << (e->a->w - 1); lo = mpq_class(-b); hi = mpq_class(b - 1); return true; }
    case K::RAdd: { mpq_class a, b, c, f; if (!rangeOf(e->a, a, b, d + 1) || !rangeOf(e->b, c, f, d + 1)) return false; lo = a + c; hi = b + f; return true; }
    case K::RMul: { mpq_class a, b, c, f; if (!rangeOf(e->a, a, b, d + 1) || !rangeOf(e->b, c, f, d + 1)) return false; mpq_class p[4] = {a * c, a * f, b * c, b * f}; lo = hi = p[0]; for (auto& x : p) { if (x < lo) lo = x; if (x > hi) hi = x; } return true; }
    case K::RIte: { mpq_class a, b, c, f; if (!rangeOf(e->b, a, b, d + 1) || !rangeOf(e->c, c, f, d + 1)) return false; lo = a < c ? a : c; hi = b > f ? b : f; return true; }
    default: return false;
  }
}
Expr* rCmp(K k, Expr* a, Expr* b) {
  if (spec(a) || spec(b)) {
    int x = spec(a), y = spec(b); if (x == 3 || y == 3) return eFalse();
    auto rank = [](int s) { return s == 1 ? 2 : s == 2 ? 0 : 1; }; int ra = rank(x), rb = rank(y);
    bool r = k == K::RLt ? ra < rb : k == K::RLe ? ra <= rb : ra == rb; return eC(r, 1); // finite assumption
  }
  if (isRC(a) && isRC(b)) { int c = cmp(*a->q, *b->q); return eC(k == K::RLt ? c < 0 : k == K::RLe ? c <= 0 : c == 0, 1); }
  if (a == b) return eC(k != K::RLt, 1);
  mpq_class al, ah, bl, bh;
  if ((isRC(a) || isRC(b)) && rangeOf(a, al, ah) && rangeOf(b, bl, bh)) {
    if (ah < bl) return eC(k != K::REq, 1);
    if (al > bh) return eFalse();
    if (k == K::RLe && ah <= bl) return eTrue();
    if (k == K::RLt && al >= bh) return eFalse();
  }
  if (k == K::REq && a->id > b->id) std::swap(a, b);
  // integer-valued comparisons back to bit-vectors
  if (a->k == K::RFromBV && b->k == K::RFromBV && a->v == b->v && a->a->w == b->a->w)
    return eBin(k == K::REq ? K::Eq : k == K::RLt ? (a->v ? K::Slt : K::Ult) : (a->v ? K::Sle : K::Ule), a->a, b->a);
  return mk(k, 1, a, b, 0, 0);
}
Expr* rFromBV(Expr* a, bool sgnd) {
  if (isC(a)) { i128 v = sgnd ? sextw(a->v, a->w) : (i128)a->v; bool neg = v < 0; u128 u = neg ? (u128)-v : (u128)v; if (!sgnd) { u = a->v; neg = false; }
    mpz_class z = (unsigned long)(u >> 64); z <<= 64; z += (unsigned long)u; if (neg) z = -z; return rC(mpq_class(z)); }
  if (a->k == K::ZExt && a->a->w < a->w) { return rFromBV(a->a, false); }
  if (a->k == K::SExt && sgnd) return rFromBV(a->a, true);
  if (sgnd && a->w > 1 && ub(a) <= maskw(a->w - 1)) sgnd = false;
  if (a->k == K::Ite) return eIte(a->a, rFromBV(a->b, sgnd), rFromBV(a->c, sgnd));
  return mk(K::RFromBV, 64, a, 0, 0, sgnd);
}
Expr* rToBV(Expr* a, unsigned w, bool sgnd) {
  if (isRC(a)) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), a->q->get_num_mpz_t(), a->q->get_den_mpz_t()); bool n = z < 0; mpz_class u = n ? mpz_class(-z) : z;
    mpz_class lo = u & mpz_class("18446744073709551615"); mpz_class hi = u >> 64; u128 v = ((u128)hi.get_ui() << 64) | lo.get_ui(); return eC(n ? -v : v, w); }
  if (a->k == K::RFromBV) { Expr* x = a->a; if (x->w == w) return x; if (x->w > w) return eExtract(x, 0, w); return a->v ? eSExt(x, w) : eZExt(x, w); }
  if (a->k == K::RIte) return eIte(a->a, rToBV(a->b, w, sgnd), rToBV(a->c, w, sgnd));
  return mk(K::RToBV, w, a, 0, 0, sgnd);
}
Expr* eFpBits(Expr* r, unsigned w) {
  if (isRC(r) || r->k == K::RSpecial) {
    double d = rToDouble(r); if (w == 64) { uint64_t u; memcpy(&u, &d, 8); return eC(u, 64); } float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return eC(u, 32);
  }
  if (r->k == K::RFromBits && r->a->w == w) return r->a;
  return mk(K::FpBits, w, r, 0, 0, 0);
}
Expr* rFromBits(Expr* b) {
  if (isC(b)) { if (b->w == 64) { uint64_t u = (uint64_t)b->v; double d; memcpy(&d, &u, 8); return rD(d); } uint32_t u = (uint32_t)b->v; float f; memcpy(&f, &u, 4); return rD(f); }
  if (b->k == K::FpBits) return b->a;
  if (b->k == K::Ite) return eIte(b->a, rFromBits(b->b), rFromBits(b->c));
  return mk(K::RFromBits, 64, b, 0, 0, 0);
}
static Expr* deriv(Expr* y, Expr* x, std::unordered_map<Expr*, Expr*>& memo) {
  if (y == x) return rC(Q1);
  auto it = memo.find(y); if (it != memo.end()) return it->second;
  Expr* r = nullptr; Expr* z = rC(Q0);
  switch (y->k) {
    case K::RConst: case K::RSym: case K::RFromBV: case K::RFromBits: case K::RSpecial: r = z; break;
    case K::RAdd: r = rAdd(deriv(y->a, x, memo), deriv(y->b, x, memo)); break;
    case K::RMul: r = rAdd(rMul(deriv(y->a, x, memo), y->b), rMul(y->a, deriv(y->b, x, memo))); break;
    case K::RDiv: { Expr* da = deriv(y->a, x, memo); Expr* db = deriv(y->b, x, memo);
      if (isZ(db)) r = rDiv(da, y->b); else r = rDiv(rSub(rMul(da, y->b), rMul(y->a, db)), rMul(y->b, y->b)); break; }
    case K::RIte: r = eIte(y->a, deriv(y->b, x, memo), deriv(y->c, x, memo)); break;
    case K::RUF: { Expr* da = deriv(y->a, x, memo); if (isZ(da) && !y->b) { r = z; break; }
      switch ((int)y->v) {
        case UF_EXP: r = rMul(y, da); break;
        case UF_LOG: r = rDiv(da, y->a); break;
        case UF_SQRT: r = rDiv(da, rMul(rC(mpq_class(2)), y)); break;
        case UF_POW: if (isRC(y->b)) { r = rMul(rMul(y->b, rUF(UF_POW, y->a, rC(*y->b->q - 1))), da); } break;
        case UF_TANH: r = rMul(rSub(rC(Q1), rMul(y, y)), da); break;
        case UF_SIN: r = rMul(rUF(UF_COS, y->a), da); break;
        case UF_COS: r = rNeg(rMul(rUF(UF_SIN, y->a), da)); break;
        default: break;
      } break; }
    default: break;
  }
  if (!r) r = rSpecial(3);
  return memo[y] = r;
}
Expr* rDeriv(Expr* y, Expr* x) { std::unordered_map<Expr*, Expr*> m; return deriv(y, x, m); }

void collectSyms(Expr* e, std::vector<uint32_t>& out) {
  std::unordered_set<Expr*> seen; std::vector<Expr*> st{e}; std::unordered_set<uint32_t> ss(out.begin(), out.end());
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue;
    if (x->k == K::BSym || x->k == K::RSym) { if (ss.insert((uint32_t)x->v).second) out.push_back((uint32_t)x->v); continue; }
    st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); }
}

// ---------------- evaluation
bool Evaluator::bv(Expr* e, u128& out) {
  if (e->k == K::BConst) { out = e->v; return true; }
  auto it = bc.find(e); if (it != bc.end()) { out = it->second; return true; }
  u128 r = 0, x, y; unsigned w = e->w;
  switch (e->k) {
    case K::BSym: { auto s = m.bv.find((uint32_t)e->v); r = s == m.bv.end() ? 0 : s->second & maskw(w); break; }
    case K::Ite: if (!bv(e->a, x)) return false; if (!bv(x ? e->b : e->c, r)) return false; break;
    case K::Concat: if (!bv(e->a, x) || !bv(e->b, y)) return false; r = (x << e->b->w) | y; break;
    case K::Extract: if (!bv(e->a, x)) return false; r = (x >> (unsigned)e->v) & maskw(w); break;
    case K::ZExt: if (!bv(e->a, r)) return false; break;
    case K::SExt: if (!bv(e->a, x)) return false; r = (u128)sextw(x, e->a->w) & maskw(w); break;
    case K::RLt: case K::RLe: case K::REq: { mpq_class p, q; if (!real(e->a, p) || !real(e->b, q)) return false; int c = cmp(p, q); r = e->k == K::RLt ? c < 0 : e->k == K::RLe ? c <= 0 : c == 0; break; }
    case K::RToBV: { mpq_class p; if (!real(e->a, p)) return false; r = rToBV(rC(p), w, e->v)->v; break; }
    case K::FpBits: { mpq_class p; if (!real(e->a, p)) return false; r = eFpBits(rC(p), w)->v; break; }
    default: {
      if (!e->a || !e->b) return false;
      if (!bv(e->a, x) || !bv(e->b, y)) return false;
      unsigned aw = e->a->w; i128 sx = sextw(x, aw), sy = sextw(y, aw);
      switch (e->k) {
        case K::Add: r = x + y; break; case K::Sub: r = x - y; break; case K::Mul: r = x * y; break;
        case K::And: r = x & y; break; case K::Or: r = x | y; break; case K::Xor: r = x ^ y; break;
        case K::Eq: r = x == y; break; case K::Ult: r = x < y; break; case K::Slt: r = sx < sy; break;
        case K::Ule: r = x <= y; break; case K::Sle: r = sx <= sy; break;
        case K::UDiv: r = y ? x / y : ~(u128)0; break; case K::URem: r = y ? x % y : x; break;
        case K::SDiv: r = !y ? (sx < 0 ? 1 : ~(u128)0) : sy == -1 ? (u128)(-sx) : (u128)(sx / sy); break;
        case K::SRem: r = !y ? x : sy == -1 ? 0 : (u128)(sx % sy); break;
        case K::Shl: r = y >= aw ? 0 : x << (unsigned)y; break; case K::LShr: r = y >= aw ? 0 : x >> (unsigned)y; break;
        case K::AShr: r = y >= aw ? (sx < 0 ? ~(u128)0 : 0) : (u128)(sx >> (unsigned)y); break;
        default: return false;
      }
      r &= maskw(w);
    }
  }
  bc[e] = r; out = r; return true;
}
bool Evaluator::real(Expr* e, mpq_class& out) {
  if (e->k == K::RConst) { out = *e->q; return true; }
  auto it = rc.find(e); if (it != rc.end()) { out = it->second; return true; }
  mpq_class x, y; u128 b;
  switch (e->k) {
    case K::RSym: { auto s = m.re.find((uint32_t)e->v); out = s == m.re.end() ? mpq_class(0) : s->second; break; }
    case K::RAdd: if (!real(e->a, x) || !real(e->b, y)) return false; out = x + y; break;
    case K::RMul: if (!real(e->a, x) || !real(e->b, y)) return false; out = x * y; break;
    case K::RDiv: if (!real(e->a, x) || !real(e->b, y) || y == 0) return false; out = x / y; break;
    case K::RIte: if (!bv(e->a, b)) return false; if (!real(b ? e->b : e->c, out)) return false; break;
    case K::RFromBV: if (!bv(e->a, b)) return false; out = *rFromBV(eC(b, e->a->w), e->v)->q; break;
    case K::RUF: { if (e->v != UF_FLOOR || !real(e->a, x)) return false; out = *rUF(UF_FLOOR, rC(x))->q; break; }
    case K::RFromBits: { if (!bv(e->a, b)) return false; Expr* r = rFromBits(eC(b, e->a->w)); if (!isRC(r)) return false; out = *r->q; break; }
    default: return false;
  }
  rc[e] = out; return true;
}
u128 Evaluator::bvApprox(Expr* e) {
  u128 r; if (bv(e, r)) return r;
  if (e->k == K::RLt) return dbl(e->a) < dbl(e->b); if (e->k == K::RLe) return dbl(e->a) <= dbl(e->b); if (e->k == K::REq) return dbl(e->a) == dbl(e->b);
  if (e->k == K::Ite) return bvApprox(e->a) ? bvApprox(e->b) : bvApprox(e->c);
  if (e->k == K::Xor && e->w == 1) return bvApprox(e->a) ^ bvApprox(e->b);
  if (e->k == K::And && e->w == 1) return bvApprox(e->a) & bvApprox(e->b);
  if (e->k == K::Or && e->w == 1) return bvApprox(e->a) | bvApprox(e->b);
  if (e->k == K::ZExt) return bvApprox(e->a);
  if (e->k == K::RToBV) return rToBV(rD(dbl(e->a)), e->w, e->v)->v;
  ok = false; return 0;
}
double Evaluator::dbl(Expr* e) {
  if (e->k == K::RConst || e->k == K::RSpecial) return rToDouble(e);
  auto it = dc.find(e); if (it != dc.end()) return it->second;
  double r = 0;
  switch (e->k) {
    case K::RSym: { auto s = m.re.find((uint32_t)e->v); r = s == m.re.end() ? 0 : s->second.get_d(); break; }
    case K::RAdd: r = dbl(e->a) + dbl(e->b); break; case K::RMul: r = dbl(e->a) * dbl(e->b); break; case K::RDiv: r = dbl(e->a) / dbl(e->b); break;
    case K::RIte: r = bvApprox(e->a) ? dbl(e->b) : dbl(e->c); break;
    case K::RFromBV: { u128 b = bvApprox(e->a); r = e->v ? (double)sextw(b, e->a->w) : (double)b; break; }
    case K::RFromBits: { u128 b = bvApprox(e->a); r = rToDouble(rFromBits(eC(b, e->a->w))); break; }
    case K::RUF: { double a = dbl(e->a), b = e->b ? dbl(e->b) : 0;
      switch ((int)e->v) { case UF_EXP: r = exp(a); break; case UF_LOG: r = log(a); break; case UF_TANH: r = tanh(a); break; case UF_SQRT: r = sqrt(a); break; case UF_POW: r = pow(a, b); break; case UF_SIN: r = sin(a); break; case UF_COS: r = cos(a); break; case UF_ROUND6: r = std::round(a * 1e6) / 1e6; break; case UF_FLOOR: r = floor(a); break; case UF_ROUNDF: r = std::round(a / (2 * b)) * 2 * b; break; case UF_ROUNDG: { double m = a == 0 ? 1 : std::pow(10, std::floor(std::log10(std::fabs(a)))); r = std::round(a / m / (2 * b)) * 2 * b * m; break; } default: ok = false; }
      break; }
    default: ok = false;
  }
  return dc[e] = r;
}
static const char* kn[] = {"c","s","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>","a>>","concat","extract","zext","sext","ite","=","u<","u<=","s<","s<=","r2bv","fpbits","rc","rs","rspecial","r+","r*","r/","rite","r<","r<=","r=","bv2r","uf","rfrombits"};
std::string estr(Expr* e, int d) {
  if (!e) return "null"; std::ostringstream o;
  if (e->k == K::BConst) { o << (unsigned long long)e->v << ":" << e->w; return o.str(); }
  if (e->k == K::RConst) { o << e->q->get_d(); return o.str(); }
  if (e->k == K::BSym || e->k == K::RSym) return g_syms[(size_t)e->v].name;
  if (d <= 0) return "...";
  o << "(" << kn[(int)e->k]; if (e->k == K::Extract || e->k == K::RUF || e->k == K::RSpecial) o << (int)e->v;
  if (e->a) o << " " << estr(e->a, d - 1); if (e->b) o << " " << estr(e->b, d - 1); if (e->c) o << " " << estr(e->c, d - 1);
  o << ")"; return o.str();
}
