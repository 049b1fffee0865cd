// P22: loss values, gradients and score counters
#include "sym.h"
#include "all_dnn.inc"
//@ bound (large) vectors of 9 and 17 values (cross entropy: one prediction symbolic, every target for the function, every active class of three for the layer)
//@ bound vectors of 1..4 (quick) / 1..6 (thorough) symbolic reals; histories of 2 (quick) / 3 (thorough) evaluations and resets of vectors of 1 and 2; batch sizes 1..4; tolerance 0, 0.1 and 3
//@ assume log is the exact real function, known to the solver by its derivative, monotonicity and values at the arguments that occur; the target handed to the cross-entropy layer has a non-zero element
//@ H_layer_mse T=600
//@ H_layer_cce T=600
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath;
ENTRY(mse) { size_t n = sym::pick("n", 1, TIER(4, 6)); V y = sym::reals("y", n); sym::Reals p = sym::reals("p", n); V pv = p, d(n + 1, 7.0); double norm = sym::real("norm").v, e = 0; for (size_t i = 0; i < n; i++) { double s = (y[i] - pv[i]) * (y[i] - pv[i]); ls_check_eq(L::squared_error(y[i], pv[i]), s, "squared error"); e += s; } double m = L::mean_squared_error(y.data(), pv.data(), n); ls_check_eq(m * (double)n, e, "mean squared error"); ls_check_le(0, m, "never negative"); ls_check(L::mean_squared_error_1(d.data(), y.data(), pv.data(), norm, n) == d.data(), "destination returned"); for (size_t i = 0; i < n; i++) { ls_check_eq(d[i], norm * sym::D(e, p[i]), "gradient of the squared errors"); ls_check_eq(L::squared_error_1(y[i], pv[i], norm), d[i], "scalar gradient"); } ls_check_eq(d[n], 7, "nothing else written"); ls_obsr("m", m); ls_reach("end"); }
ENTRY(cce) { size_t n = sym::pick("n", 1, TIER(3, 5)); V y = sym::reals("y", n); sym::Reals p = sym::reals("p", n); V pv = p, d(n + 1, 7.0); double norm = sym::real("norm").v, e = 0; volatile double veps = std::numeric_limits<double>::epsilon(); double eps = veps; for (size_t i = 0; i < n; i++) { bool low = pv[i] < eps; double t = low ? -y[i] * std::log(eps) : -y[i] * std::log(pv[i]); ls_check_eq(L::cross_entropy(y[i], pv[i]), t, "cross entropy of an element"); e += t; } double m = L::cross_entropy(y.data(), pv.data(), n); ls_check_eq(m, e, "cross entropy"); ls_check(L::cross_entropy_1(d.data(), y.data(), pv.data(), norm, n) == d.data(), "destination returned"); for (size_t i = 0; i < n; i++) { if (pv[i] > eps) { ls_check_eq(d[i], norm * sym::D(m, p[i]), "gradient of the cross entropy"); ls_check_eq(d[i] * pv[i], -norm * y[i], "closed form of the gradient"); } else (void)sym::D(m, p[i]); ls_check_eq(L::cross_entropy_1(y[i], pv[i], norm), d[i], "scalar gradient"); } ls_check_eq(d[n], 7, "nothing else written"); ls_reach("end"); }
template <class Layer, class Loss, class Ok, class Grad> static void run(Layer& l, size_t n, size_t steps, size_t batch, Loss loss, Ok ok, Grad grad) { double sum = 0; size_t c = 0, w = 0, dummy = 0; V none; ls_check(sym::throws_as<std::runtime_error>([&] { V x(n, 0.5); l.forward(x); }), "evaluating without a target is refused");
  for (size_t s = 0; s < steps; s++) { if (s && sym::flag("reset")) { l.reset_score(); sum = 0; c = w = 0; } V y = sym::reals("y", n); V x = sym::reals("x", n); Loss* lp = &loss; (void)lp; if (!grad(y, x, -1, 0.)) ls_kill(); l.set_target(y); bool train = sym::flag("train"); const V& o = train ? l.training_forward(x) : l.forward(x); sym::check_eq(o, x, "the loss passes its input through"); double e = loss(y, x); sum += e; (ok(y, x, e) ? c : w)++; if (train) { const V& g = l.backward(none); ls_check(g.size() == n, "gradient size"); for (size_t i = 0; i < n; i++) ls_check(grad(y, x, (int)i, g[i] * (double)batch), "loss layer gradient"); }
    ls_check_eq(l.avg_loss() * (double)(c + w), sum, "average loss since the last reset"); ls_check_eq(l.accuracy() * (double)(c + w), (double)c, "accuracy since the last reset"); } ls_reach("end"); }
ENTRY(layer_mse) { size_t n = sym::pick("n", 1, 2), b = sym::pick("batch", 1, TIER(3, 4)); static const double ts[3] = {0.1, 0, 3}; double tol = ts[sym::pick("tol", 0, 2)]; MeanSquaredLossLayer l("m", n, b, tol); run(l, n, n == 1 ? TIER(2, 3) : 1, b, [&](const V& y, const V& x) { double e = 0; for (size_t i = 0; i < n; i++) e += (y[i] - x[i]) * (y[i] - x[i]); return e / (double)n; }, [&](const V&, const V&, double e) { return e <= tol; }, [&](const V& y, const V& x, int i, double g) { if (i < 0) return true; ls_check_eq(g, 2 * (x[(size_t)i] - y[(size_t)i]), "gradient value"); return true; }); }
ENTRY(layer_cce) { size_t n = 2, b = sym::pick("batch", 1, TIER(3, 4)); CategoricalCrossEntropyLossLayer l("m", n, b); run(l, n, TIER(2, 3), b, [&](const V& y, const V& x) { double e = 0; for (size_t i = 0; i < n; i++) e -= y[i] * std::log(x[i]); return e; }, [&](const V& y, const V& x, double) { size_t a = y[0] != 0 ? 0 : 1, m = x[1] > x[0] ? 1 : 0; return a == m; }, [&](const V& y, const V& x, int i, double g) { if (i < 0) { for (size_t k = 0; k < n; k++) ls_assume(x[k] > 0.001); return y[0] != 0 || y[1] != 0; } ls_check_eq(g * x[(size_t)i], -y[(size_t)i], "gradient value"); return true; }); }
ENTRY(cce_zero_target) { CategoricalCrossEntropyLossLayer l("m", 3, 1); l.set_target({0, 0, 0}); V x = sym::reals("x", 3); ls_check(sym::throws_as<std::runtime_error>([&] { l.forward(x); }), "a target without an active class is refused"); ls_reach("end"); }
ENTRY(fresh) { size_t n = sym::pick("n", 1, 3); MeanSquaredLossLayer m("m", n); CategoricalCrossEntropyLossLayer c("c", n, 0); V y = sym::reals("y", n), x = y; for (auto& v : x) v += 1; m.set_target(y); m.training_forward(x); for (double g : m.backward(y)) ls_check_eq(g, 2, "default batch size is one"); m.input_shape(LayerShape(n + 1)); V y2 = sym::reals("y", n + 1), x2 = sym::reals("x", n + 1); m.set_target(y2); m.training_forward(x2); const V& g = m.backward(y); ls_check(g.size() == n + 1 && m.last_input_gradient().size() == n + 1, "gradient follows the input shape"); for (size_t i = 0; i <= n; i++) ls_check_eq(g[i], 2 * (x2[i] - y2[i]), "gradient after reshaping");
  auto k = std::dynamic_pointer_cast<MeanSquaredLossLayer>(m.clone()); k->reset_score(); k->set_target(x2); k->training_forward(x2); ls_check_eq(k->avg_loss(), 0, "a clone scores on its own"); double e = 0; for (size_t i = 0; i <= n; i++) e += (y2[i] - x2[i]) * (y2[i] - x2[i]); ls_check_eq(m.avg_loss() * 2, 1 + e / (double)(n + 1), "scoring a clone does not change the original"); ls_reach("end"); }
ENTRY(large) { size_t n = sym::pick("n", 0, 1) ? 17 : 9; V y = sym::reals("y", n), p = sym::reals("p", n), d(n); double norm = sym::real("norm").v, e = 0; for (size_t i = 0; i < n; i++) e += (y[i] - p[i]) * (y[i] - p[i]); ls_check_eq(L::mean_squared_error(y.data(), p.data(), n) * (double)n, e, "mean squared error"); L::mean_squared_error_1(d.data(), y.data(), p.data(), norm, n); for (size_t i = 0; i < n; i++) ls_check_eq(d[i], norm * 2 * (p[i] - y[i]), "gradient of the squared errors");
  MeanSquaredLossLayer m("m", n, 3); m.set_target(y); m.training_forward(p); const V& g = m.backward(p); for (size_t i = 0; i < n; i++) ls_check_eq(g[i] * 3, 2 * (p[i] - y[i]), "loss layer gradient"); ls_check_eq(m.avg_loss() * (double)n, e, "loss of the layer"); ls_reach("end"); }
ENTRY(large_cce) { size_t n = sym::pick("n", 0, 1) ? 17 : 9, at = sym::pick("at", 0, 3) * (n / 3); at = std::min(at, n - 1); V y = sym::reals("y", n), d(n); double norm = sym::real("norm").v;
  V q; for (size_t i = 0; i < n; i++) q.push_back(i == 3 ? 0.75 : i % 2 ? 0.25 : 0.5); double s = sym::real("q").v; ls_assume(s > 0.001); q[at] = s; double c = 0; for (size_t i = 0; i < n; i++) c -= y[i] * std::log(q[i]); ls_check_eq(L::cross_entropy(y.data(), q.data(), n), c, "cross entropy"); L::cross_entropy_1(d.data(), y.data(), q.data(), norm, n); for (size_t i = 0; i < n; i++) ls_check_eq(d[i] * q[i], -norm * y[i], "closed form of the gradient");
  size_t hot = sym::pick("hot", 0, 2) * (n / 2); hot = std::min(hot, n - 1); V t(n, 0.0); t[hot] = 1; CategoricalCrossEntropyLossLayer k("c", n, 2); k.set_target(t); k.training_forward(q); const V& h = k.backward(q); for (size_t i = 0; i < n; i++) ls_check_eq(h[i] * 2 * q[i], -t[i], "loss layer gradient"); ls_check_eq(k.avg_loss(), -std::log(q[hot]), "loss of the layer"); bool best = true; for (size_t i = 0; i < n; i++) if (i < hot ? q[i] >= q[hot] : q[i] > q[hot]) best = false; ls_check_eq(k.accuracy(), best ? 1 : 0, "correct when the active class has the largest prediction"); ls_reach("end"); }
