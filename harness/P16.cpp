// P16: vector and matrix kernels
#include "sym.h"
#include "dnn/dlmath.hpp"
//@ bound vectors of 0..8, 17 and 35 elements (quick) / 0..17 and 35 (thorough), matrices up to 5x5 (quick) / 7x7 (thorough) and of 9x8, 1x17, 17x1 and 12x16, every value symbolic; in-place and separate destinations
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath;
// a destination with guard elements on both sides
struct Buf { V b; V g; size_t n; Buf(const V& init) : n(init.size()) { g = sym::reals("guard", 4).v(); b = {g[0], g[1]}; b.insert(b.end(), init.begin(), init.end()); b.push_back(g[2]); b.push_back(g[3]); } double* p() { return b.data() + 2; } void is(const V& e, const char* m) { sym::check_eq(V(b.begin() + 2, b.begin() + 2 + (long)n), e, m); sym::check_eq({b[0], b[1], b[n + 2], b[n + 3]}, g, "nothing outside the destination is written"); } };
static V junk(size_t n) { return sym::reals("junk", n).v(); }
ENTRY(arrays) { size_t n = sym::pick("n", 0, TIER(10, 16)); if (n == TIER(9, 15)) n = 17; else if (n > TIER(9, 15)) n = 35; V a = sym::reals("a", n), b = sym::reals("b", n); double k = sym::real("k").v; V s, m, sk, mk; for (size_t i = 0; i < n; i++) { s.push_back(a[i] + b[i]); m.push_back(a[i] * b[i]); sk.push_back(a[i] + k); mk.push_back(a[i] * k); } bool in = sym::flag("inplace");
  auto go = [&](const V& e, auto f, const char* w) { Buf d(in ? a : junk(n)); V src = a, rhs = b; double* r = f(d.p(), in ? d.p() : src.data(), rhs.data()); ls_check(r == d.p(), "the destination is returned"); d.is(e, w); sym::check_eq(src, a, "operands unchanged"); sym::check_eq(rhs, b, "operands unchanged"); };
  go(s, [&](double* d, const double* x, const double* y) { return L::arr_sum(d, x, y, n); }, "element-wise sum"); go(m, [&](double* d, const double* x, const double* y) { return L::arr_mul(d, x, y, n); }, "element-wise product"); go(sk, [&](double* d, const double* x, const double*) { return L::arr_sum(d, x, k, n); }, "sum with a scalar"); go(mk, [&](double* d, const double* x, const double*) { return L::arr_mul(d, x, k, n); }, "product with a scalar");
  if (in) { V o = b; Buf d(b); L::arr_sum(d.p(), V(a).data(), d.p(), n); d.is(s, "sum into the second operand"); Buf q(b); L::arr_mul(q.p(), V(a).data(), q.p(), n); q.is(m, "product into the second operand"); Buf e(a); L::arr_mul(e.p(), e.p(), e.p(), n); V sq; for (double x : a) sq.push_back(x * x); e.is(sq, "square"); } ls_reach("end"); }
// one of the larger shapes instead of 0 x 0
static void larger(size_t& r, size_t& c, size_t k) { static const size_t s[4][2] = {{9, 8}, {1, 17}, {17, 1}, {12, 16}}; r = s[k][0]; c = s[k][1]; }
ENTRY(matrix) { size_t r = sym::pick("rows", 0, TIER(5, 7)), c = sym::pick("cols", 0, TIER(5, 7)); if (r == 1 && c == 1) { size_t k = sym::pick("larger", 0, 4); if (k) larger(r, c, k - 1); } V m = sym::reals("m", r * c), x = sym::reals("x", c), e; for (size_t i = 0; i < r; i++) { double s = 0; for (size_t j = 0; j < c; j++) s += m[i * c + j] * x[j]; e.push_back(s); } Buf d(junk(r)); V m2 = m, x2 = x; ls_check(L::matarr_mul(d.p(), m2.data(), x2.data(), r, c) == d.p(), "destination returned"); d.is(e, "matrix times array"); sym::check_eq(m2, m, "matrix unchanged"); sym::check_eq(x2, x, "array unchanged"); Buf d2(junk(r)); L::matarr_mul_no_check(d2.p(), m2.data(), x2.data(), r, c); d2.is(e, "matrix times array, unchecked");
  Buf a(x); ls_check(sym::throws_as<std::runtime_error>([&] { L::matarr_mul(a.p(), m.data(), (const double*)a.p(), r, c); }), "aliased destination refused"); a.is(x, "aliased array unchanged"); ls_reach("end"); }
ENTRY(dense) { size_t in = sym::pick("in", 1, TIER(5, 7)), out = sym::pick("out", 1, TIER(5, 7)); if (in == 1 && out == 1) { size_t k = sym::pick("larger", 0, 4); if (k) larger(in, out, k - 1); } V x = sym::reals("x", in), w = sym::reals("w", in * out), b = sym::reals("b", out), e; for (size_t i = 0; i < out; i++) { double s = b[i]; for (size_t j = 0; j < in; j++) s += w[i * in + j] * x[j]; e.push_back(s); }
  Buf d(junk(out)), d2(junk(out)); ls_check(L::dense(d.p(), x.data(), w.data(), b.data(), in, out) == d.p(), "destination returned"); d.is(e, "dense kernel"); L::dense_simd_opt(d2.p(), x.data(), w.data(), b.data(), in, out); d2.is(e, "dense kernel, vectorised form");
  V g = sym::reals("g", out), w0 = sym::reals("w0", in * out), b0 = sym::reals("b0", out), ei(in, 0.0), ew = w0, eb = b0; for (size_t i = 0; i < out; i++) { eb[i] += g[i]; for (size_t j = 0; j < in; j++) { ew[i * in + j] += g[i] * x[j]; ei[j] += g[i] * w[i * in + j]; } }
  Buf gi(junk(in)), gw(w0), gb(b0); L::dense_1(gi.p(), gw.p(), gb.p(), g.data(), x.data(), w.data(), in, out); gi.is(ei, "dense backward: input gradient"); gw.is(ew, "dense backward: weight gradient accumulates"); gb.is(eb, "dense backward: bias gradient accumulates"); ls_obsr("y", d.p()[0]); ls_reach("end"); }
