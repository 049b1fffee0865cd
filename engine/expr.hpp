// Expression DAG: bit-vectors (<=128 bits) and exact reals, hash-consed and lightly simplified.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <gmpxx.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
  BConst, BSym,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
  RToBV,      // real -> bv (truncation toward zero); v=1 signed
  FpBits,     // bit pattern of a real (opaque)
  RConst, RSym, RSpecial, // RSpecial: v = 1 +inf, 2 -inf, 3 nan
  RAdd, RMul, RDiv, RIte, RLt, RLe, REq,
  RFromBV,    // v=1 signed
  RUF,        // uninterpreted/axiomatised function, v = function id
  RFromBits,  // real from opaque bits
};
enum UF { UF_EXP = 1, UF_LOG, UF_SQRT, UF_POW, UF_SIN, UF_COS, UF_ROUND6, UF_FLOOR, UF_OTHER, UF_TANH, UF_ROUNDF, UF_ROUNDG };

struct Expr {
  K k; uint8_t flags; uint16_t w; uint32_t id; uint32_t depth;
  Expr *a, *b, *c;
  u128 v; const mpq_class* q; uint64_t h;
};
enum { F_REAL = 1, F_UNDEF = 2, F_UFREAL = 4, F_NONLIN = 8, F_SPECIAL = 16 };

struct SymInfo { std::string name; bool real; bool undef; unsigned w; Expr* e; };
extern std::vector<SymInfo> g_syms;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }
inline bool isC(Expr* e) { return e->k == K::BConst; }
inline bool isR(Expr* e) { return e->k >= K::RConst && e->k != K::RLt && e->k != K::RLe && e->k != K::REq; }
inline bool isRC(Expr* e) { return e->k == K::RConst; }

Expr* eC(u128 v, unsigned w);
Expr* eSym(const std::string& name, unsigned w, bool undef = false);
Expr* eBin(K k, Expr* a, Expr* b);
Expr* eNot(Expr* a); // width 1
Expr* eConcat(Expr* hi, Expr* lo);
Expr* eExtract(Expr* a, unsigned lo, unsigned w);
Expr* eZExt(Expr* a, unsigned w);
Expr* eSExt(Expr* a, unsigned w);
Expr* eIte(Expr* c, Expr* a, Expr* b);     // bv or real
inline Expr* eAnd(Expr* a, Expr* b) { return eBin(K::And, a, b); }
inline Expr* eOr(Expr* a, Expr* b) { return eBin(K::Or, a, b); }
inline Expr* eEq(Expr* a, Expr* b) { return eBin(K::Eq, a, b); }
Expr* eTrue(); Expr* eFalse();

Expr* rC(const mpq_class& q);
Expr* rD(double d);               // from double (inf/nan -> RSpecial)
Expr* rSym(const std::string& name, bool undef = false);
Expr* rAdd(Expr* a, Expr* b);
Expr* rSub(Expr* a, Expr* b);
Expr* rNeg(Expr* a);
Expr* rMul(Expr* a, Expr* b);
Expr* rDiv(Expr* a, Expr* b);
Expr* rCmp(K k, Expr* a, Expr* b); // RLt/RLe/REq -> bv1
Expr* rFromBV(Expr* a, bool sgn);
Expr* rToBV(Expr* a, unsigned w, bool sgn);
Expr* rUF(int fn, Expr* a, Expr* b = nullptr);
Expr* rSpecial(int kind);
Expr* eFpBits(Expr* r, unsigned w);
Expr* rFromBits(Expr* b);
bool rPositive(Expr* a);           // syntactic
Expr* rDeriv(Expr* y, Expr* x);    // formal derivative with respect to an RSym
double rToDouble(Expr* c);

// evaluation under an assignment (by symbol id = index in g_syms)
struct Assignment {
  std::unordered_map<uint32_t, u128> bv; std::unordered_map<uint32_t, mpq_class> re;
};
struct Evaluator {
  const Assignment& m; bool ok = true;
  std::unordered_map<Expr*, u128> bc; std::unordered_map<Expr*, mpq_class> rc; std::unordered_map<Expr*, double> dc;
  Evaluator(const Assignment& a) : m(a) {}
  bool bv(Expr* e, u128& out);          // exact; false when it cannot be decided exactly
  bool real(Expr* e, mpq_class& out);
  double dbl(Expr* e);                  // approximate
  u128 bvApprox(Expr* e);
};
std::string estr(Expr* e, int depth = 6);
void collectSyms(Expr* e, std::vector<uint32_t>& out);
size_t exprCount();
