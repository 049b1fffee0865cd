// P21: softmax
#include "sym.h"
#include "all_dnn.inc"
//@ bound (large) vectors of 9 and 17 elements holding two symbolic values, every output gradient
//@ bound vectors of 1..3 (quick) / 1..4 (thorough) symbolic reals
//@ assume exp is the exact real function, known to the solver by positivity, monotonicity and exp(a+b)=exp(a)exp(b) at the arguments that occur
//@ H_values T=850 t=150
//@ H_gradient T=850 t=150
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath;
ENTRY(values) { size_t n = sym::pick("n", 1, TIER(3, 4)); V x = sym::reals("x", n), y(n), z(n), w = x; ls_check(L::softmax(y.data(), x.data(), n) == y.data(), "destination returned"); ls_check(L::stable_softmax(z.data(), x.data(), n) == z.data(), "destination returned"); L::softmax(w.data(), w.data(), n); double s = 0, e = 0; for (double v : x) e += std::exp(v); for (size_t i = 0; i < n; i++) { s += y[i]; ls_check_lt(0, y[i], "outputs are positive"); ls_check_eq(y[i] * e, std::exp(x[i]), "softmax value"); ls_check_eq(z[i], y[i], "stable form equals plain form"); ls_check_eq(w[i], y[i], "in-place form"); } ls_check_eq(s, 1, "outputs sum to one"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j) ls_check((x[i] < x[j]) == (y[i] < y[j]), "outputs are ordered like the inputs"); ls_obsr("y", y[0]); ls_reach("end"); }
ENTRY(shift) { size_t n = sym::pick("n", 1, TIER(3, 4)); V x = sym::reals("x", n), y(n), z(n); double c = sym::real("c").v; V x2; for (double v : x) x2.push_back(v + c); L::softmax(y.data(), x.data(), n); L::softmax(z.data(), x2.data(), n); sym::check_eq(z, y, "adding a constant changes nothing"); ls_reach("end"); }
ENTRY(gradient) { size_t n = sym::pick("n", 1, TIER(3, 4)); sym::Reals x = sym::reals("x", n); V g = sym::reals("g", n), y(n), d(n), d2(n), xv = x; L::softmax(y.data(), xv.data(), n); double s = 0; for (size_t i = 0; i < n; i++) s += g[i] * y[i]; L::softmax_1(d.data(), xv.data(), g.data(), n); L::softmax_1_opt(d2.data(), y.data(), g.data(), n); for (size_t i = 0; i < n; i++) { ls_check_eq(d[i], sym::D(s, x[i]), "gradient is the product with the Jacobian"); ls_check_eq(d2[i], d[i], "gradient from the output"); }
  V q = y; ls_check(sym::throws_as<std::runtime_error>([&] { L::softmax_1_opt(q.data(), q.data(), g.data(), n); }), "aliased destination refused"); sym::check_eq(q, y, "refusal writes nothing"); ls_check(sym::throws_as<std::runtime_error>([&] { L::stable_softmax(q.data(), (const double*)nullptr, n); }), "null source refused"); ls_reach("end"); }
ENTRY(layer) { size_t n = sym::pick("n", 1, TIER(3, 3)); sym::Reals x = sym::reals("x", n); V g = sym::reals("g", n), in = x, e(n); SoftmaxLayer l("s", n); V y = l.training_forward(in); L::softmax(e.data(), in.data(), n); sym::check_eq(y, e, "layer output"); double s = 0; for (size_t i = 0; i < n; i++) s += g[i] * e[i]; V d = l.backward(g); for (size_t i = 0; i < n; i++) ls_check_eq(d[i], sym::D(s, x[i]), "layer gradient"); ls_reach("end"); }
ENTRY(stable) { size_t n = sym::pick("n", 1, TIER(3, 4)); bool layer = sym::flag("layer"); V x = sym::reals("x", n), y(n); SoftmaxLayer l("s", n); ls_exp_guard(1); if (layer) y = l.forward(x); else L::stable_softmax(y.data(), x.data(), n); ls_exp_guard(0); double s = 0; for (double v : y) s += v; ls_check_eq(s, 1, "outputs of the stable form sum to one"); ls_reach("end"); }
ENTRY(large) { size_t n = sym::pick("n", 0, 1) ? 17 : 9, at = sym::pick("at", 0, 3) * (n / 3); at = std::min(at, n - 1); double v0 = sym::real("x").v, w0 = sym::real("x").v; V x; for (size_t i = 0; i < n; i++) x.push_back((i == at) != (i % 3 == 1) ? v0 : w0); V g = sym::reals("g", n), y(n), z(n), d(n), d2(n); L::softmax(y.data(), x.data(), n); L::stable_softmax(z.data(), x.data(), n); double e = 0, dot = 0; for (double v : x) e += std::exp(v); for (size_t i = 0; i < n; i++) { ls_check_eq(y[i] * e, std::exp(x[i]), "softmax value"); ls_check_eq(z[i], y[i], "stable form equals plain form"); dot += g[i] * y[i]; } L::softmax_1(d.data(), x.data(), g.data(), n); L::softmax_1_opt(d2.data(), y.data(), g.data(), n); for (size_t i = 0; i < n; i++) { ls_check_eq(d[i], y[i] * (g[i] - dot), "gradient in closed form"); ls_check_eq(d2[i], d[i], "gradient from the output"); } ls_reach("end"); }
