#include "solver.hpp"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <unordered_set>
#include <algorithm>
#include <functional>

SolverStats* g_sstat; uint64_t g_rlimit = 40000000;
static Z3_context C = nullptr; static Z3_sort sReal, sBool;
static std::unordered_map<Expr*, Z3_ast> cbv, cbool;
struct Frac { Z3_ast n, d; };  // d == null means 1
static std::unordered_map<Expr*, Frac> cre;
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_error_code g_err = Z3_OK;
static void onerr(Z3_context c, Z3_error_code e) { g_err = e; if (getenv("LL_Z3ERR")) fprintf(stderr, "z3: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (C) return;
  Z3_global_param_set("rewriter.som_blowup", "1000000");
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, onerr);
  sReal = Z3_mk_real_sort(C); sBool = Z3_mk_bool_sort(C);  
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast num(const mpq_class& q) { return Z3_mk_numeral(C, q.get_str().c_str(), sReal); }
static Z3_ast r0() { static Z3_ast a = keep(num(0)); return a; }
static Z3_ast r1() { static Z3_ast a = keep(num(1)); return a; }
static Z3_ast LB(Expr* e);            // bool
static Z3_ast LV(Expr* e);            // bv
static Frac LR(Expr* e);              // real fraction
static Z3_ast mul(Z3_ast a, Z3_ast b) { if (!a) return b; if (!b) return a; Z3_ast x[2] = {a, b}; return Z3_mk_mul(C, 2, x); }
static Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); }
static Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }
static Z3_ast And2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(C, 2, x); }
static Z3_ast Or2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(C, 2, x); }
static Z3_ast rconst(const std::string& n) { return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), sReal); }
static Z3_ast boolToBV(Z3_ast b) { return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, bvs(1)), Z3_mk_unsigned_int64(C, 0, bvs(1))); }
static Z3_ast bvnum(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, bvs(w));
  mpz_class z = (unsigned long)(v >> 64); z <<= 64; z += (unsigned long)v; return Z3_mk_numeral(C, z.get_str().c_str(), bvs(w));
}
static bool positiveDen(Expr* e) { return rPositive(e); }

static Z3_ast LB(Expr* e) {
  auto it = cbool.find(e); if (it != cbool.end()) return it->second;
  Z3_ast r = nullptr;
  switch (e->k) {
    case K::BConst: r = e->v ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K::BSym: { char nm[32]; snprintf(nm, 32, "b%u", (unsigned)e->v); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), sBool); break; }
    case K::Xor: r = (isC(e->b) && e->b->v) ? Z3_mk_not(C, LB(e->a)) : Z3_mk_xor(C, LB(e->a), LB(e->b)); break;
    case K::And: r = And2(LB(e->a), LB(e->b)); break;
    case K::Or: r = Or2(LB(e->a), LB(e->b)); break;
    case K::Add: case K::Sub: r = Z3_mk_xor(C, LB(e->a), LB(e->b)); break;
    case K::Mul: r = And2(LB(e->a), LB(e->b)); break;
    case K::Ite: r = Z3_mk_ite(C, LB(e->a), LB(e->b), LB(e->c)); break;
    case K::Eq: r = e->a->w == 1 ? Z3_mk_iff(C, LB(e->a), LB(e->b)) : Z3_mk_eq(C, LV(e->a), LV(e->b)); break;
    case K::Ult: r = Z3_mk_bvult(C, LV(e->a), LV(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(C, LV(e->a), LV(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(C, LV(e->a), LV(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(C, LV(e->a), LV(e->b)); break;
    case K::RLt: case K::RLe: case K::REq: {
      Frac a = LR(e->a), b = LR(e->b); Z3_ast l, rr;
      if (!a.d && !b.d) { l = a.n; rr = b.n; }
      else {
        l = mul(a.n, b.d); rr = mul(b.n, a.d);
        if (e->k != K::REq) {
          // multiply by the (possibly negative) denominators once more so that the multiplier is a square
          if (a.d && !(e->a->k == K::RDiv && positiveDen(e->a->b))) { l = mul(l, a.d); rr = mul(rr, a.d); }
          if (b.d && !(e->b->k == K::RDiv && positiveDen(e->b->b))) { l = mul(l, b.d); rr = mul(rr, b.d); }
        }
      }
      Z3_ast d = sub(l, rr);
      r = e->k == K::REq ? Z3_mk_eq(C, d, r0()) : e->k == K::RLt ? Z3_mk_lt(C, d, r0()) : Z3_mk_le(C, d, r0()); break; }
    case K::Extract: { // single bit
      Z3_ast x = Z3_mk_extract(C, (unsigned)e->v, (unsigned)e->v, LV(e->a)); r = Z3_mk_eq(C, x, bvnum(1, 1)); break; }
    default: r = Z3_mk_eq(C, LV(e), bvnum(1, 1)); break;
  }
  return cbool[e] = keep(r);
}
static Z3_ast LV(Expr* e) {
  auto it = cbv.find(e); if (it != cbv.end()) return it->second;
  Z3_ast r = nullptr; unsigned w = e->w;
  if (w == 1 && e->k != K::BConst && e->k != K::Extract) r = boolToBV(LB(e));
  else switch (e->k) {
    case K::BConst: r = bvnum(e->v, w); break;
    case K::BSym: { char nm[32]; snprintf(nm, 32, "v%u", (unsigned)e->v); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bvs(w)); break; }
    case K::RToBV: { char nm[32]; snprintf(nm, 32, "t%u", e->id); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bvs(w)); break; }
    case K::FpBits: { char nm[32]; snprintf(nm, 32, "f%u", e->id); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bvs(w)); break; }
    case K::Add: r = Z3_mk_bvadd(C, LV(e->a), LV(e->b)); break; case K::Sub: r = Z3_mk_bvsub(C, LV(e->a), LV(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(C, LV(e->a), LV(e->b)); break; case K::UDiv: r = Z3_mk_bvudiv(C, LV(e->a), LV(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(C, LV(e->a), LV(e->b)); break; case K::URem: r = Z3_mk_bvurem(C, LV(e->a), LV(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(C, LV(e->a), LV(e->b)); break; case K::And: r = Z3_mk_bvand(C, LV(e->a), LV(e->b)); break;
    case K::Or: r = Z3_mk_bvor(C, LV(e->a), LV(e->b)); break; case K::Xor: r = Z3_mk_bvxor(C, LV(e->a), LV(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(C, LV(e->a), LV(e->b)); break; case K::LShr: r = Z3_mk_bvlshr(C, LV(e->a), LV(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(C, LV(e->a), LV(e->b)); break;
    case K::Concat: r = Z3_mk_concat(C, LV(e->a), LV(e->b)); break;
    case K::Extract: r = Z3_mk_extract(C, (unsigned)e->v + w - 1, (unsigned)e->v, LV(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(C, w - e->a->w, LV(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(C, w - e->a->w, LV(e->a)); break;
    case K::Ite: r = Z3_mk_ite(C, LB(e->a), LV(e->b), LV(e->c)); break;
    default: r = boolToBV(LB(e)); break;
  }
  return cbv[e] = keep(r);
}
static Frac LR(Expr* e) {
  auto it = cre.find(e); if (it != cre.end()) return it->second;
  Frac f{nullptr, nullptr};
  switch (e->k) {
    case K::RConst: f.n = num(*e->q); break;
    case K::RSym: { char nm[32]; snprintf(nm, 32, "r%u", (unsigned)e->v); f.n = rconst(nm); break; }
    case K::RAdd: { Frac a = LR(e->a), b = LR(e->b);
      if (a.d == b.d) { f.n = add(a.n, b.n); f.d = a.d; }
      else { f.n = add(mul(a.n, b.d), mul(b.n, a.d)); f.d = mul(a.d, b.d); } break; }
    case K::RMul: { Frac a = LR(e->a), b = LR(e->b); f.n = mul(a.n, b.n); f.d = mul(a.d, b.d); break; }
    case K::RDiv: { Frac a = LR(e->a), b = LR(e->b); f.n = mul(a.n, b.d); f.d = mul(b.n, a.d); break; }
    case K::RIte: { Z3_ast c = LB(e->a); Frac a = LR(e->b), b = LR(e->c); f.n = Z3_mk_ite(C, c, a.n, b.n); if (a.d || b.d) f.d = Z3_mk_ite(C, c, a.d ? a.d : r1(), b.d ? b.d : r1()); break; }
    case K::RFromBV: { Expr* b = e->a; std::vector<Z3_ast> s; unsigned w = b->w; mpq_class p = 1; Z3_ast v = LV(b);
      for (unsigned i = 0; i < w; i++) { Z3_ast bit = Z3_mk_eq(C, Z3_mk_extract(C, i, i, v), bvnum(1, 1)); mpq_class c = (e->v && i == w - 1) ? mpq_class(-p) : p; s.push_back(Z3_mk_ite(C, bit, num(c), r0())); p *= 2; }
      f.n = s.size() == 1 ? s[0] : Z3_mk_add(C, s.size(), s.data()); break; }
    default: { char nm[32]; snprintf(nm, 32, "u%u", e->id); f.n = rconst(nm); break; }
  }
  keep(f.n); if (f.d) keep(f.d);
  return cre[e] = f;
}
// axioms for uninterpreted nodes occurring in the query
static void axioms(const std::vector<Expr*>& nodes, std::vector<Z3_ast>& out) {
  std::vector<Expr*> uf[16];
  for (Expr* e : nodes) {
    if (e->k == K::RUF) uf[e->v].push_back(e);
    if (e->k == K::RDiv) { Frac d = LR(e->b); out.push_back(Z3_mk_not(C, Z3_mk_eq(C, d.n, r0()))); }
    if (e->k == K::RToBV) {
      // k = trunc(x): as reals
      Z3_ast v = LV(e); unsigned w = e->w; std::vector<Z3_ast> s; mpq_class p = 1;
      for (unsigned i = 0; i < w; i++) { Z3_ast bit = Z3_mk_eq(C, Z3_mk_extract(C, i, i, v), bvnum(1, 1)); mpq_class c = (e->v && i == w - 1) ? mpq_class(-p) : p; s.push_back(Z3_mk_ite(C, bit, num(c), r0())); p *= 2; }
      Z3_ast kv = s.size() == 1 ? s[0] : Z3_mk_add(C, s.size(), s.data());
      Frac x = LR(e->a); Z3_ast xs = x.n, ks = kv, one = r1();
      if (x.d) { // assume positive denominators handled by squaring
        Z3_ast d2 = mul(x.d, x.d); xs = mul(x.n, x.d); ks = mul(kv, d2); one = d2; }
      Z3_ast lo = Z3_mk_le(C, ks, xs), hi = Z3_mk_lt(C, xs, add(ks, one));
      Z3_ast nlo = Z3_mk_lt(C, sub(ks, one), xs), nhi = Z3_mk_le(C, xs, ks);
      out.push_back(Z3_mk_ite(C, Z3_mk_ge(C, xs, r0()), And2(lo, hi), And2(nlo, nhi)));
    }
  }
  auto lt = [&](Expr* a, Expr* b) { return LB(rCmp(K::RLt, a, b)); };
  auto le = [&](Expr* a, Expr* b) { return LB(rCmp(K::RLe, a, b)); };
  auto eq = [&](Expr* a, Expr* b) { return LB(rCmp(K::REq, a, b)); };
  Expr *Z = rC(0), *O = rC(1);
  for (int f = 1; f < 16; f++) {
    auto& v = uf[f];
    for (size_t i = 0; i < v.size(); i++) {
      Expr* r = v[i]; Expr* x = r->a;
      switch (f) {
        case UF_EXP: out.push_back(lt(Z, r)); out.push_back(le(rAdd(O, x), r)); out.push_back(Z3_mk_iff(C, lt(O, r), lt(Z, x))); out.push_back(Z3_mk_iff(C, eq(O, r), eq(Z, x)));
          out.push_back(Z3_mk_implies(C, lt(x, O), le(rMul(r, rSub(O, x)), O))); break;
        case UF_LOG: out.push_back(Z3_mk_implies(C, lt(Z, x), le(r, rSub(x, O)))); out.push_back(Z3_mk_implies(C, lt(Z, x), Z3_mk_iff(C, lt(Z, r), lt(O, x)))); out.push_back(Z3_mk_implies(C, eq(x, O), eq(r, Z))); break;
        case UF_SQRT: out.push_back(Z3_mk_implies(C, le(Z, x), And2(le(Z, r), eq(rMul(r, r), x)))); break;
        case UF_POW: out.push_back(Z3_mk_implies(C, lt(Z, x), lt(Z, r))); break;
        case UF_TANH: out.push_back(And2(lt(rC(-1), r), lt(r, O))); out.push_back(Z3_mk_iff(C, lt(Z, r), lt(Z, x))); out.push_back(Z3_mk_iff(C, eq(Z, r), eq(Z, x)));
          if (!uf[UF_EXP].empty()) { Expr* e = rUF(UF_EXP, x); Expr* q = rMul(e, e); out.push_back(lt(Z, e)); out.push_back(eq(rMul(r, rAdd(q, O)), rSub(q, O))); } break;
        case UF_SIN: case UF_COS: out.push_back(And2(le(rC(-1), r), le(r, O))); break;
        case UF_ROUND6: { Expr* h = rC(mpq_class(1, 2000000)); out.push_back(And2(le(rSub(x, h), r), le(r, rAdd(x, h)))); out.push_back(Z3_mk_implies(C, le(Z, x), le(Z, r))); out.push_back(Z3_mk_implies(C, le(x, Z), le(r, Z))); break; }
        // rounded to a number of decimals (distance at most y) or of significant digits (relative distance at most y)
        case UF_ROUNDF: { Expr* y = r->b; out.push_back(And2(le(rSub(x, y), r), le(r, rAdd(x, y)))); out.push_back(Z3_mk_implies(C, le(Z, x), le(Z, r))); out.push_back(Z3_mk_implies(C, le(x, Z), le(r, Z))); break; }
        case UF_ROUNDG: { Expr *up = rMul(x, rAdd(O, r->b)), *dn = rMul(x, rSub(O, r->b)); out.push_back(Z3_mk_implies(C, le(Z, x), And2(le(dn, r), le(r, up)))); out.push_back(Z3_mk_implies(C, le(x, Z), And2(le(up, r), le(r, dn)))); break; }
        case UF_FLOOR: out.push_back(And2(le(r, x), lt(x, rAdd(r, O)))); out.push_back(Z3_mk_is_int(C, LR(r).n)); break;
      }
      for (size_t j = 0; j < i; j++) {
        Expr* s = v[j]; Expr* y = s->a;
        Z3_ast same = eq(x, y); if (r->b) same = And2(same, eq(r->b, s->b));
        out.push_back(Z3_mk_implies(C, same, eq(r, s)));
        if (f == UF_EXP || f == UF_SQRT) out.push_back(Z3_mk_implies(C, f == UF_SQRT ? And2(le(Z, x), lt(x, y)) : lt(x, y), lt(r, s))), out.push_back(Z3_mk_implies(C, f == UF_SQRT ? And2(le(Z, y), lt(y, x)) : lt(y, x), lt(s, r)));
        if (f == UF_LOG) out.push_back(Z3_mk_implies(C, And2(lt(Z, x), lt(x, y)), lt(r, s))), out.push_back(Z3_mk_implies(C, And2(lt(Z, y), lt(y, x)), lt(s, r)));
      }
    }
  }
}
static void collectNodes(const std::vector<Expr*>& es, std::vector<Expr*>& special, bool& real, bool& bv, bool& nonlin) {
  std::unordered_set<Expr*> seen; std::vector<Expr*> st(es.begin(), es.end());
  while (!st.empty()) {
    Expr* x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue;
    if (x->k == K::RUF || x->k == K::RToBV || x->k == K::RDiv) special.push_back(x);
    if (x->k == K::RSym || x->k == K::RUF) real = true;
    if (x->k == K::BSym || x->k == K::RFromBV || x->k == K::RToBV) bv = true;
    if (x->flags & F_NONLIN) nonlin = true;
    st.push_back(x->a); st.push_back(x->b); st.push_back(x->c);
  }
}
static std::unordered_map<Expr*, std::vector<uint32_t>*> symCache;
static const std::vector<uint32_t>& symsOf(Expr* e) { auto& p = symCache[e]; if (!p) { p = new std::vector<uint32_t>; collectSyms(e, *p); } return *p; }

static bool getReal(Z3_model m, Z3_ast c, mpq_class& q) {
  Z3_ast v = nullptr; if (!Z3_model_eval(C, m, c, true, &v) || !v) return false; 
  if (Z3_is_algebraic_number(C, v)) { Z3_ast l = Z3_get_algebraic_number_lower(C, v, 20);  q = mpq_class(Z3_get_numeral_string(C, l)); q.canonicalize(); return true; }
  if (Z3_get_ast_kind(C, v) != Z3_NUMERAL_AST) return false;
  q = mpq_class(Z3_get_numeral_string(C, v)); q.canonicalize(); return true;
}
Res solve(const std::vector<Expr*>& cons, Expr* extra, Assignment* model, bool slice) {
  init();
  auto t0 = std::chrono::steady_clock::now();
  std::vector<Expr*> qs;
  if (extra) { if (isC(extra)) { if (!extra->v) return Res::Unsat; } else qs.push_back(extra); }
  if (model || !slice) { for (Expr* c : cons) qs.push_back(c); }
  else {
    std::unordered_set<uint32_t> live; for (Expr* q : qs) for (auto s : symsOf(q)) live.insert(s);
    std::vector<char> used(cons.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < cons.size(); i++) if (!used[i]) { bool hit = false; for (auto s : symsOf(cons[i])) if (live.count(s)) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; qs.push_back(cons[i]); for (auto s : symsOf(cons[i])) live.insert(s); } } }
  }
  std::sort(qs.begin(), qs.end(), [](Expr* a, Expr* b) { return a->id < b->id; }); qs.erase(std::unique(qs.begin(), qs.end()), qs.end());
  bool real = false, bv = false, nonlin = false; std::vector<Expr*> sp; collectNodes(qs, sp, real, bv, nonlin);
  std::vector<Z3_ast> as; for (Expr* q : qs) as.push_back(LB(q));
  if (!sp.empty()) axioms(sp, as);
  Res res = Res::Unknown; g_err = Z3_OK;
  // polynomial normal form first
  std::vector<Z3_ast> ss; bool triv = false;
  if (real || nonlin) {
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_bool(C, p, Z3_mk_string_symbol(C, "som"), true); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "som_blowup"), 1000000);
    for (auto a : as) {  Z3_ast s = Z3_simplify_ex(C, a, p);  if (Z3_get_bool_value(C, s) == Z3_L_FALSE) triv = true; if (Z3_get_bool_value(C, s) != Z3_L_TRUE) ss.push_back(s); }
    Z3_params_dec_ref(C, p);
  } else for (auto a : as) {  ss.push_back(a); }
  if (triv) res = Res::Unsat;
  else {
    auto attempt = [&](Z3_solver s, uint64_t rl) {
      Z3_solver_inc_ref(C, s);
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)std::min<uint64_t>(rl, 4000000000u)); if (nonlin && real) Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), model ? 5000 : 15000); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
      for (auto a : ss) Z3_solver_assert(C, s, a);
      Z3_lbool r = Z3_solver_check(C, s);
      if (g_err != Z3_OK && r == Z3_L_UNDEF) g_err = Z3_OK;
      if (r == Z3_L_TRUE) {
        res = Res::Sat;
        if (model) {
          Z3_model m = Z3_solver_get_model(C, s);
          if (m) { Z3_model_inc_ref(C, m); model->bv.clear(); model->re.clear();
            std::unordered_set<uint32_t> all; for (Expr* q : qs) for (auto x : symsOf(q)) all.insert(x);
            for (auto x : all) { Expr* e = g_syms[x].e;
              if (e->k == K::RSym) { mpq_class q; if (getReal(m, LR(e).n, q)) model->re[x] = q; }
              else if (e->w == 1) { Z3_ast v; if (Z3_model_eval(C, m, LB(e), true, &v)) model->bv[x] = Z3_get_bool_value(C, v) == Z3_L_TRUE; }
              else { Z3_ast v; if (Z3_model_eval(C, m, LV(e), true, &v)) { mpz_class z(Z3_get_numeral_string(C, v)); u128 u = 0; mpz_class hi = z >> 64; mpz_class lo = z - (hi << 64); u = ((u128)hi.get_ui() << 64) | lo.get_ui(); model->bv[x] = u; } } }
            Z3_model_dec_ref(C, m); }
        }
      } else if (r == Z3_L_FALSE) res = Res::Unsat;
      Z3_solver_dec_ref(C, s);
    };
    static Z3_symbol NRA = Z3_mk_string_symbol(C, "QF_NRA"), BVL = Z3_mk_string_symbol(C, "QF_BV");
    if (!real && !nonlin && bv && sp.empty() && !std::any_of(qs.begin(), qs.end(), [](Expr* e) { return e->flags & F_REAL; })) {
      attempt(Z3_mk_simple_solver(C), g_rlimit / 8);
      if (res == Res::Unknown) attempt(Z3_mk_solver_for_logic(C, BVL), g_rlimit);
    } else if (real && !bv) {
      if (!nonlin) attempt(Z3_mk_simple_solver(C), g_rlimit);
      else { attempt(Z3_mk_solver_for_logic(C, NRA), g_rlimit / 2); if (res == Res::Unknown) attempt(Z3_mk_simple_solver(C), g_rlimit / 2); }
    } else { attempt(Z3_mk_simple_solver(C), g_rlimit / 2); if (res == Res::Unknown) attempt(Z3_mk_solver(C), g_rlimit); }
  }
  for (auto a : as) (void)a;
  auto us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  if (g_sstat) { g_sstat->queries++; g_sstat->us += us; (res == Res::Sat ? g_sstat->sat : res == Res::Unsat ? g_sstat->unsat : g_sstat->unknown)++; uint64_t m = g_sstat->maxus; if ((uint64_t)us > m) g_sstat->maxus = us; }
  if (getenv("LL_SLOWQ") && us > 1000000) { fprintf(stderr, "slow query %.1fs res=%d cons=%zu:\n", us / 1e6, (int)res, qs.size()); for (Expr* q : qs) fprintf(stderr, "   %s\n", estr(q, 12).c_str()); }
  return res;
}
// loads the solver once in the root process so that the forked paths share its initialised memory
void warmSolver() { init(); Z3_solver s = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s); Z3_ast x = Z3_mk_const(C, Z3_mk_string_symbol(C, "warm_v"), bvs(4)), y = rconst("warm_r"); Z3_solver_assert(C, s, Z3_mk_bvult(C, x, Z3_mk_unsigned_int64(C, 3, bvs(4)))); Z3_solver_assert(C, s, Z3_mk_lt(C, y, num(mpq_class(1)))); Z3_solver_check(C, s); Z3_solver_dec_ref(C, s); }
