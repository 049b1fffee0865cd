#include "exec.hpp"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstring>
using namespace llvm;
Val fpToInt(Exec& X, Expr* x, unsigned w, bool sg);

static Expr* rAbs(Exec& X, Expr* x) { if (x->k == K::RSpecial) return x->v == 2 ? rSpecial(1) : x; return X.decide(rCmp(K::RLe, rC(0), x)) ? x : rNeg(x); }
// tanh as an atom: arguments that are equal as polynomials share one node (a fingerprint finds candidates, the solver confirms them)
static const uint64_t FP = (1ull << 61) - 1;
static uint64_t fmul(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % FP); }
static uint64_t fpow(uint64_t a, uint64_t e) { uint64_t r = 1; for (; e; e >>= 1, a = fmul(a, a)) if (e & 1) r = fmul(r, a); return r; }
static uint64_t fmix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return (x ^ (x >> 31)) % FP; }
static uint64_t fingerprint(Expr* e, std::unordered_map<Expr*, uint64_t>& memo) {
  auto it = memo.find(e); if (it != memo.end()) return it->second; uint64_t r;
  auto z = [](const mpz_class& v) { mpz_class m; mpz_fdiv_r_ui(m.get_mpz_t(), v.get_mpz_t(), FP); return (uint64_t)m.get_ui(); };
  switch (e->k) {
    case K::RConst: r = fmul(z(e->q->get_num()), fpow(z(e->q->get_den()), FP - 2)); break;
    case K::RAdd: r = (fingerprint(e->a, memo) + fingerprint(e->b, memo)) % FP; break;
    case K::RMul: r = fmul(fingerprint(e->a, memo), fingerprint(e->b, memo)); break;
    case K::RDiv: r = fmul(fingerprint(e->a, memo), fpow(fingerprint(e->b, memo), FP - 2)); break;
    default: r = fmix(e->id); }
  return memo[e] = r; }
static Expr* rTanhAtom(Expr* x) {
  if (isRC(x) && sgn(*x->q) == 0) return x;
  static std::unordered_map<Expr*, uint64_t> memo; static std::unordered_map<uint64_t, std::vector<Expr*>> known;
  auto& v = known[fingerprint(x, memo)]; for (Expr* y : v) if (y == x || solve({}, eNot(rCmp(K::REq, x, y)), nullptr, true) == Res::Unsat) return rUF(UF_TANH, y);
  v.push_back(x); return rUF(UF_TANH, x); }
extern bool g_tanhAtom; bool g_tanhAtom = false;
static Expr* rTanh(Expr* x) { if (g_tanhAtom) return rTanhAtom(x); if (isRC(x) && sgn(*x->q) == 0) return x; Expr* e = rUF(UF_EXP, x); Expr* e2 = rMul(e, e); Expr* o = rC(1); return rDiv(rSub(e2, o), rAdd(e2, o)); }
static Expr* rMinMax(Exec& X, Expr* a, Expr* b, bool mx) { if (a->k == K::RSpecial && a->v == 3) return b; if (b->k == K::RSpecial && b->v == 3) return a; bool lt = X.decide(rCmp(K::RLt, a, b)); return lt == mx ? b : a; }
// a value known to lie in a small range is explored integer by integer, which keeps the rounding out of the solver
static Expr* rFloor(Exec& X, Expr* x) { Expr* f = rUF(UF_FLOOR, x); if (f->k != K::RUF || X.may(eNot(eAnd(rCmp(K::RLe, rC(-20), x), rCmp(K::RLt, x, rC(40)))))) return f; long i = -20; while (i < 39 && !X.decide(rCmp(K::RLt, x, rC(i + 1)), "integer part")) i++; return rC(i); }
static Expr* rCeil(Exec& X, Expr* x) { return rNeg(rFloor(X, rNeg(x))); }
static Expr* rTrunc(Exec& X, Expr* x) { return X.decide(rCmp(K::RLe, rC(0), x)) ? rFloor(X, x) : rCeil(X, x); }
static Expr* rRound(Exec& X, Expr* x) { Expr* h = rC(mpq_class(1, 2)); return X.decide(rCmp(K::RLe, rC(0), x)) ? rFloor(X, rAdd(x, h)) : rCeil(X, rSub(x, h)); }
static Expr* logGuard(Exec& X, Expr* x) { // log/sqrt domain: restrict to the domain (outside: NaN/inf)
  if (rPositive(x)) return x; Expr* p = rCmp(K::RLt, rC(0), x); if (X.may(eNot(p))) { X.note = "log: non-positive arguments outside"; X.assume(p); } return x; }
static bool mathFn(Exec& X, const std::string& n, std::vector<Val>& a, Val& r) {
  if (a.empty() || a[0].t != 1) return false; Expr* x = a[0].e; unsigned w = a[0].w; Expr* o = nullptr;
  if (n == "exp" && X.expGuard && x->k != K::RSpecial) X.check(rCmp(K::RLe, x, rC(710)), "the exponential overflows");
  if (n == "exp") o = rUF(UF_EXP, x);
  else if (n == "expm1") o = rSub(rUF(UF_EXP, x), rC(1));
  else if (n == "exp2") { if (isRC(x)) o = rD(std::exp2(rToDouble(x))); else return false; }
  else if (n == "log") { if (x->k == K::RSpecial) o = x; else if (isRC(x) && sgn(*x->q) == 0) o = rSpecial(2); else o = rUF(UF_LOG, logGuard(X, x)); }
  else if (n == "log1p") o = rUF(UF_LOG, logGuard(X, rAdd(x, rC(1))));
  else if (n == "tanh") o = rTanh(x);
  else if (n == "sinh") o = rMul(rSub(rUF(UF_EXP, x), rUF(UF_EXP, rNeg(x))), rC(mpq_class(1, 2)));
  else if (n == "cosh") o = rMul(rAdd(rUF(UF_EXP, x), rUF(UF_EXP, rNeg(x))), rC(mpq_class(1, 2)));
  else if (n == "sqrt") { if (isRC(x) && sgn(*x->q) < 0) o = rSpecial(3); else { if (!isRC(x)) { Expr* p = rCmp(K::RLe, rC(0), x); if (X.may(eNot(p))) { X.note = "sqrt: negative arguments outside"; X.assume(p); } } o = rUF(UF_SQRT, x); } }
  else if (n == "pow") o = rUF(UF_POW, x, a[1].e);
  else if (n == "sin") o = rUF(UF_SIN, x);
  else if (n == "cos") o = rUF(UF_COS, x);
  else if (n == "fabs") o = rAbs(X, x);
  else if (n == "floor") o = rFloor(X, x);
  else if (n == "ceil") o = rCeil(X, x);
  else if (n == "trunc") o = rTrunc(X, x);
  else if (n == "round" || n == "rint" || n == "nearbyint") o = rRound(X, x);
  else if (n == "fmax" || n == "maxnum" || n == "maximum") o = rMinMax(X, x, a[1].e, true);
  else if (n == "fmin" || n == "minnum" || n == "minimum") o = rMinMax(X, x, a[1].e, false);
  else if (n == "fma" || n == "fmuladd") o = rAdd(rMul(x, a[1].e), a[2].e);
  else if (n == "hypot") { Expr* s = rAdd(rMul(x, x), rMul(a[1].e, a[1].e)); o = rUF(UF_SQRT, s); }
  else if (n == "copysign") { Expr* m = rAbs(X, x); o = X.decide(rCmp(K::RLe, rC(0), a[1].e)) ? m : rNeg(m); }
  else if (n == "fmod") { if (isRC(x) && isRC(a[1].e)) o = rD(std::fmod(rToDouble(x), rToDouble(a[1].e))); else return false; }
  else return false;
  r = vR(o, w); return true;
}
static void memSet(Exec& X, uint64_t d, const Val& v, uint64_t n) { if (!n) return; uint64_t off; Expr* so; Obj* o = X.resolve(vI(d, 64), n, true, off, so); if (!v.e) { memset(&o->data[off], (int)v.c, n); memset(&o->st[off], 1, n); } else for (uint64_t i = 0; i < n; i++) X.storeN(o, off + i, vE(eExtract(v.e, 0, 8)), 1); }

Val intrinsic(Exec& X, DI& d, std::vector<Val>& a, bool& ok) {
  auto* I = cast<CallBase>(d.I); Intrinsic::ID id = I->getCalledFunction()->getIntrinsicID(); Val r;
  auto pred = [&](K k, int i, int j) { return eBin(k, toE(a[i]), toE(a[j])); };
  switch (id) {
    case Intrinsic::lifetime_start: { if (Obj* o = X.find(a[1].c)) if (o->base == a[1].c) std::fill(o->st.begin(), o->st.end(), 0); return r; }
    case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: return r;
    case Intrinsic::expect: return a[0];
    case Intrinsic::threadlocal_address: return a[0]; 
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
    case Intrinsic::memcpy: case Intrinsic::memmove: X.copyMem(X.concretize(a[0], "memcpy"), X.concretize(a[1], "memcpy"), X.concretize(a[2], "memcpy length"), true); return r;
    case Intrinsic::memset: memSet(X, X.concretize(a[0], "memset"), a[1], X.concretize(a[2], "memset length")); return r;
    case Intrinsic::umax: return vE(eIte(pred(K::Ult, 0, 1), toE(a[1]), toE(a[0])));
    case Intrinsic::umin: return vE(eIte(pred(K::Ult, 0, 1), toE(a[0]), toE(a[1])));
    case Intrinsic::smax: return vE(eIte(pred(K::Slt, 0, 1), toE(a[1]), toE(a[0])));
    case Intrinsic::smin: return vE(eIte(pred(K::Slt, 0, 1), toE(a[0]), toE(a[1])));
    case Intrinsic::abs: return vE(eIte(eBin(K::Slt, toE(a[0]), eC(0, a[0].w)), eBin(K::Sub, eC(0, a[0].w), toE(a[0])), toE(a[0])));
    case Intrinsic::usub_sat: return vE(eIte(pred(K::Ult, 0, 1), eC(0, a[0].w), pred(K::Sub, 0, 1)));
    case Intrinsic::uadd_sat: { Expr* s = pred(K::Add, 0, 1); return vE(eIte(eBin(K::Ult, s, toE(a[0])), eC(~(u128)0, a[0].w), s)); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = a[0].w; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      K k = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? K::Sub : K::Mul;
      unsigned W = w * 2 > 128 ? 128 : w * 2; Expr* x = sg ? eSExt(toE(a[0]), W) : eZExt(toE(a[0]), W); Expr* y = sg ? eSExt(toE(a[1]), W) : eZExt(toE(a[1]), W);
      Expr* s = eBin(k, x, y); Expr* lo = eExtract(s, 0, w); Expr* back = sg ? eSExt(lo, W) : eZExt(lo, W); r.t = 2; r.agg = new std::vector<Val>{vE(lo), vE(eNot(eEq(s, back)))}; return r; }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: { unsigned w = a[0].w; Expr* e = toE(a[0]);
      if (id == Intrinsic::ctpop) { Expr* s = eC(0, w); for (unsigned i = 0; i < w; i++) s = eBin(K::Add, s, eZExt(eExtract(e, i, 1), w)); return vE(s); }
      Expr* s = eC(w, w); for (unsigned i = 0; i < w; i++) { unsigned b = id == Intrinsic::ctlz ? i : w - 1 - i; s = eIte(eExtract(e, b, 1), eC(id == Intrinsic::ctlz ? w - 1 - b : b, w), s); } return vE(s); }
    case Intrinsic::bswap: { Expr* e = toE(a[0]); Expr* s = eExtract(e, 0, 8); for (unsigned i = 8; i < e->w; i += 8) s = eConcat(s, eExtract(e, i, 8)); return vE(s); }
    case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = a[0].w; Expr* c = eZExt(eConcat(toE(a[0]), toE(a[1])), 2 * w); Expr* sh = eZExt(eBin(K::URem, toE(a[2]), eC(w, w)), 2 * w); if (id == Intrinsic::fshl) return vE(eExtract(eBin(K::Shl, c, sh), w, w)); return vE(eExtract(eBin(K::LShr, c, sh), 0, w)); }
    case Intrinsic::objectsize: return vI(~0ULL, d.w);
    case Intrinsic::is_constant: return vI(0, 1);
    case Intrinsic::eh_typeid_for: { auto& s = X.selId; auto it = s.find(a[0].c); int v = it != s.end() ? it->second : (s[a[0].c] = s.size() + 1); return vI(v, 32); }
    case Intrinsic::stacksave: return vI(0, 64); case Intrinsic::stackrestore: return r;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: X.fail("abort", "trap");
    case Intrinsic::vastart: X.unsupported("va_start"); case Intrinsic::vaend: return r;
    case Intrinsic::is_fpclass: { uint64_t m = a[1].c; Expr* x = a[0].e; bool nan = x->k == K::RSpecial && x->v == 3, inf = x->k == K::RSpecial && x->v != 3; if (nan) return vI((m & 3) != 0, 1); if (inf) return vI((m & (x->v == 1 ? 0x200 : 4)) != 0, 1);
      if ((m & ~0x207u) == 0) return vI(0, 1); if ((m | 0x207) == 0x3ff) return vI(1, 1); break; }
    case Intrinsic::load_relative: break;
    default: break;
  }
  std::string n = I->getCalledFunction()->getName().str(); // llvm.exp.f64
  size_t p = n.find('.', 5); std::string base = n.substr(5, p == std::string::npos ? p : p - 5);
  if (mathFn(X, base, a, r)) return r;
  ok = false; return r;
}

void Exec::addHandlers() {
  auto add = [&](std::initializer_list<const char*> names, Handler h) { int i = handlers.size(); handlers.push_back(h); for (auto n : names) hidx[n] = i; };
  auto newh = [](Exec& X, std::vector<Val>& a, Val& r, DI& d) {
    if (a[0].e) { Expr* big = eBin(K::Ult, eC(1 << 24, 64), a[0].e); if (X.decide(big)) { Function* F = X.M->getFunction("ls_rt_throw_bad_alloc"); if (!F) X.unsupported("bad_alloc"); X.call(F, {}, &d); return false; } }
    uint64_t n = X.concretize(a[0], "allocation size");
    if (n > (1u << 28)) { Function* F = X.M->getFunction("ls_rt_throw_bad_alloc"); if (!F) X.unsupported("bad_alloc"); X.call(F, {}, &d); return false; }
    Obj* o = X.alloc(n, "heap"); o->heap = true; r = vI(o->base, 64); return true; };
  auto freeh = [](Exec& X, std::vector<Val>& a, Val& r, DI&) {
    uint64_t p = X.concretize(a[0], "freed pointer"); if (!p) return true; auto it = X.objs.find(p);
    if (it == X.objs.end() || !it->second->heap) X.fail("memory", "free of an address that is not the start of a live heap block");
    if (it->second->freed) X.fail("memory", "double free"); Obj* o = it->second; o->freed = true; o->data.clear(); o->data.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit(); return true; };
  add({"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}, newh);
  add({"calloc"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { uint64_t n = X.concretize(a[0], "calloc") * X.concretize(a[1], "calloc"); Obj* o = X.alloc(n, "heap"); o->heap = true; std::fill(o->st.begin(), o->st.end(), 1); r = vI(o->base, 64); return true; });
  add({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, freeh);
  add({"memcpy", "memmove"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { X.copyMem(X.concretize(a[0], "memcpy"), X.concretize(a[1], "memcpy"), X.concretize(a[2], "memcpy length"), true); r = a[0]; return true; });
  add({"memset"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { memSet(X, X.concretize(a[0], "memset"), a[1], X.concretize(a[2], "memset length")); r = a[0]; return true; });
  add({"abort"}, [](Exec& X, std::vector<Val>&, Val&, DI&) -> bool { X.fail("abort", "abort called"); });
  add({"_ZSt9terminatev"}, [](Exec& X, std::vector<Val>&, Val&, DI&) -> bool { X.fail("abort", "std::terminate called"); });
  add({"__cxa_pure_virtual"}, [](Exec& X, std::vector<Val>&, Val&, DI&) -> bool { X.fail("abort", "pure virtual function called"); });
  add({"exit", "_exit"}, [](Exec& X, std::vector<Val>&, Val&, DI&) -> bool { X.endPath("ok"); });
  add({"__assert_fail"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) -> bool { X.fail("abort", "assertion failed: " + X.cstr(a[0].c)); });
  add({"__cxa_atexit", "__cxa_thread_atexit", "__cxa_guard_abort", "pthread_once", "fflush"}, [](Exec&, std::vector<Val>&, Val& r, DI&) { r = vI(0, 32); return true; });
  add({"__cxa_guard_acquire"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { uint8_t* p = X.raw(a[0].c, 1); r = vI(p && *p ? 0 : 1, 32); return true; });
  add({"__cxa_guard_release"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { memSet(X, a[0].c, vI(1, 8), 1); return true; });
  add({"__cxa_allocate_exception"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { Obj* o = X.alloc(a[0].c, "exception"); o->heap = true; r = vI(o->base, 64); return true; });
  add({"__cxa_free_exception"}, [](Exec&, std::vector<Val>&, Val&, DI&) { return true; });
  add({"__cxa_throw"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { X.throwExc(a[0].c, a[1].c); return false; });
  add({"__cxa_begin_catch"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { X.caught.push_back({a[0].c, X.excType[a[0].c]}); r = a[0]; return true; });
  add({"__cxa_get_exception_ptr"}, [](Exec&, std::vector<Val>& a, Val& r, DI&) { r = a[0]; return true; });
  add({"__cxa_end_catch"}, [](Exec& X, std::vector<Val>&, Val&, DI&) { if (!X.caught.empty()) X.caught.pop_back(); return true; });
  add({"__cxa_rethrow"}, [](Exec& X, std::vector<Val>&, Val&, DI&) { if (X.caught.empty()) X.fail("abort", "rethrow without exception"); auto e = X.caught.back(); X.throwExc(e.obj, e.tinfo); return false; });
  add({"__dynamic_cast"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) {
    uint64_t p = X.concretize(a[0], "dynamic_cast"); auto rd = [&](uint64_t x) { uint8_t* q = X.raw(x, 8); if (!q) X.unsupported("dynamic_cast layout"); uint64_t v; memcpy(&v, q, 8); return v; };
    if (!p) { r = vI(0, 64); return true; } Type* t = Type::getInt64Ty(X.M->getContext()); Val vp = X.load(vI(p, 64), t); uint64_t v = X.concretize(vp, "vptr");
    int64_t top = (int64_t)rd(v - 16); uint64_t ti = rd(v - 8); int64_t off; if (X.baseOf(ti, a[2].c, p + top, off)) r = vI(p + top + off, 64); else r = vI(0, 64); return true; });
  // libm
  for (const char* n : {"exp", "expm1", "exp2", "log", "log1p", "tanh", "sinh", "cosh", "sqrt", "pow", "sin", "cos", "fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "fmax", "fmin", "fma", "hypot", "copysign", "fmod"}) {
    std::string s = n; Handler h = [s](Exec& X, std::vector<Val>& a, Val& r, DI&) { if (!mathFn(X, s, a, r)) X.unsupported("math function " + s); return true; };
    int i = handlers.size(); handlers.push_back(h); hidx[s] = i; hidx[s + "f"] = i; }
  // harness interface
  add({"ls_sym"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { std::string n = X.cstr(a[0].c); unsigned w = a[1].c; Expr* e = eSym(n, w); X.inputs.push_back({n, e, (int)w}); r = vE(eZExt(e, 64)); return true; });
  add({"ls_real"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { std::string n = X.cstr(a[0].c); Expr* e = rSym(n); X.inputs.push_back({n, e, 0}); r = vR(e); return true; });
  add({"ls_concretize"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { r = vI(X.concretize(a[0], "harness"), 64); return true; });
  add({"ls_assume"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { X.assume(a[0].w == 1 ? toE(a[0]) : eNot(eEq(toE(a[0]), eC(0, a[0].w)))); return true; });
  add({"ls_check"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { X.check(a[0].w == 1 ? toE(a[0]) : eNot(eEq(toE(a[0]), eC(0, a[0].w))), X.cstr(a[1].c)); return true; });
  add({"ls_check_eq"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { bool sp = a[0].e->k == K::RSpecial || a[1].e->k == K::RSpecial; X.check(rCmp(K::REq, a[0].e, a[1].e), X.cstr(a[2].c), "assert", sp ? nullptr : a[0].e, sp ? nullptr : a[1].e); return true; });
  add({"ls_check_le"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { X.check(rCmp(K::RLe, a[0].e, a[1].e), X.cstr(a[2].c)); return true; });
  add({"ls_check_lt"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { X.check(rCmp(K::RLt, a[0].e, a[1].e), X.cstr(a[2].c)); return true; });
  add({"ls_real_id"}, [](Exec&, std::vector<Val>&, Val& r, DI&) { r = vI(0, 32); return true; });
  add({"ls_deriv", "ls_deriv_id"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { if (a[1].e->k != K::RSym) X.unsupported("derivative with respect to a non-symbol"); r = vR(rDeriv(a[0].e, a[1].e)); return true; });
  add({"ls_symbolic"}, [](Exec&, std::vector<Val>&, Val& r, DI&) { r = vI(1, 32); return true; });
  add({"ls_is_symbolic"}, [](Exec&, std::vector<Val>& a, Val& r, DI&) { r = vI(a[0].e && !isRC(a[0].e) ? 1 : 0, 32); return true; });
  add({"ls_kill"}, [](Exec& X, std::vector<Val>&, Val&, DI&) -> bool { X.endPath("killed"); });
  add({"ls_reach"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { std::string n = X.cstr(a[0].c); static std::unordered_set<std::string> done; if (done.insert(n).second) X.emit("{\"t\":\"reach\",\"label\":\"" + n + "\"}"); return true; });
  add({"ls_obs"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { X.obs.push_back({X.cstr(a[0].c), toE(a[1])}); return true; });
  add({"ls_obsr"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { X.obs.push_back({X.cstr(a[0].c), a[1].e}); return true; });
  add({"ls_exp_guard"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { X.expGuard = a[0].c; return true; });
  add({"ls_fpcast_check"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { X.fpcastCheck = a[0].c; return true; });
  add({"ls_fork_fp"}, [](Exec&, std::vector<Val>& a, Val&, DI&) { cfg.forkFpSelect = a[0].c; return true; });
  add({"ls_dump"}, [](Exec&, std::vector<Val>& a, Val&, DI&) { fprintf(stderr, "dump: %s\n", estr(toE(a[0]), 20).c_str()); return true; });
  add({"ls_dumpr"}, [](Exec&, std::vector<Val>& a, Val&, DI&) { fprintf(stderr, "dump: %s\n", estr(a[0].e, 20).c_str()); return true; });
  add({"pthread_mutex_lock"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { X.heldLock = a[0].c; r = vI(0, 32); return true; });
  add({"pthread_mutex_unlock"}, [](Exec& X, std::vector<Val>&, Val& r, DI&) { X.heldLock = 0; r = vI(0, 32); return true; });
  add({"ls_unsupported"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) -> bool { X.unsupported(X.cstr(a[0].c)); });
  add({"ls_is_symbolic_u", "ls_is_symbolic_d"}, [](Exec&, std::vector<Val>& a, Val& r, DI&) { r = vI(a[0].e && !isC(a[0].e) && !isRC(a[0].e) && a[0].e->k != K::RSpecial ? 1 : 0, 32); return true; });
  add({"ls_task_begin"}, [](Exec& X, std::vector<Val>&, Val& r, DI&) { if (X.tasks.empty()) X.tasks.push_back({}); Exec::Task t; t.spawn = ++X.clock; t.parent = X.curTask; X.tasks.push_back(t); X.taskStack.push_back(X.curTask); X.tlsEnter(); X.curTask = X.tasks.size() - 1; X.openTasks++; r = vI(X.curTask, 32); return true; });
  add({"ls_task_end"}, [](Exec& X, std::vector<Val>&, Val&, DI&) { X.curTask = X.taskStack.back(); X.taskStack.pop_back(); X.tlsLeave(); return true; });
  add({"ls_join"}, [](Exec& X, std::vector<Val>& a, Val&, DI&) { uint64_t id = a[0].c; if (id && id < X.tasks.size() && !X.tasks[id].joined) { X.tasks[id].joined = ++X.clock; if (--X.openTasks == 0) X.shadow.clear(); } return true; });
  // decimal formatting of reals (std::to_string): the text is a token that names the rounded value
  add({"ls_real_token", "ls_real_fmt"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { // (double, buf, cap[, mode, precision]) -> length; mode 0 fixed, 1 shortest of fixed and scientific, 2 scientific
    Expr* e = a[0].e; uint64_t p = a[1].c; std::string s; unsigned mode = 0, prec = 6; if (a.size() > 3) { mode = (unsigned)X.concretize(a[3], "number format"); prec = (unsigned)X.concretize(a[4], "number precision"); }
    if (isRC(e) || e->k == K::RSpecial) { char b[800]; snprintf(b, 800, mode == 0 ? "%.*f" : mode == 1 ? "%.*g" : "%.*e", (int)prec, rToDouble(e)); s = b; }
    else { mpz_class t; unsigned d = mode == 0 ? prec : mode == 1 ? (prec ? prec - 1 : 0) : prec; mpz_ui_pow_ui(t.get_mpz_t(), 10, d); Expr* q = mode == 0 && prec == 6 ? rUF(UF_ROUND6, e) : rUF(mode == 0 ? UF_ROUNDF : UF_ROUNDG, e, rC(mpq_class(1, 2) / mpq_class(t)));
      bool neg = X.decide(rCmp(K::RLt, e, rC(0))); s = std::string(neg ? "-" : "") + "1.\x01" + std::to_string(q->id) + "\x02" "000000"; extern std::unordered_map<uint64_t, Expr*> g_tokens; g_tokens[q->id] = q; }
    for (size_t i = 0; i < s.size(); i++) memSet(X, p + i, vI((unsigned char)s[i], 8), 1); r = vI(s.size(), 64);
    return true; });
  add({"ls_token_real"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { extern std::unordered_map<uint64_t, Expr*> g_tokens; auto it = g_tokens.find(a[0].c); if (it == g_tokens.end()) X.unsupported("unknown number token"); r = vR(it->second); return true; });
  // exact decimal conversion of concrete text
  add({"ls_dec_real"}, [](Exec& X, std::vector<Val>& a, Val& r, DI&) { // (mantissa as double, exp10) -> mantissa * 10^exp10
    int64_t e = (int64_t)X.concretize(a[1], "decimal exponent"); if (e > 400) { r = vR(rSpecial(1)); return true; } if (e < -400) { r = vR(rC(0)); return true; }
    mpz_class t = 1; for (int64_t i = 0; i < std::llabs(e); i++) t *= 10; mpq_class q = e >= 0 ? mpq_class(t) : mpq_class(mpz_class(1), t); r = vR(rMul(a[0].e, rC(q))); return true; });
}
std::unordered_map<uint64_t, Expr*> g_tokens;
