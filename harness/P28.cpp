// P28: activation layers
#include "sym.h"
#include "all_dnn.inc"
//@ bound (large) vectors of 9 and 18 values, one of them (at every position) and the output gradient symbolic
//@ bound vectors of 1..2 (quick) / 1..3 (thorough; softmax 1..3) symbolic reals, histories of 2 passes (thorough: 3 for vectors of 1), each a prediction or a training pass followed by its back-propagation; positive symbolic ELU coefficient; kinks of ReLU and ELU excluded for the gradient
//@ assume exp and tanh are the exact real functions, known to the solver by monotonicity, positivity and functional equations at the arguments that occur
//@ H_softmax t=200 T=850
//@ H_elu t=200 T=850
using namespace EdgeLearning; using V = std::vector<double>;
template <class F> static void run(Layer& l, size_t n, size_t steps, bool kink, F f) { ls_check(l.param_count() == 0 && l.input_size() == n && l.output_size() == n, "an activation has no parameters"); ls_check(sym::throws_as<std::runtime_error>([&] { l.param(0); }) && sym::throws_as<std::runtime_error>([&] { l.gradient(0); }), "parameter access is refused");
  for (size_t s = 0; s < steps; s++) { bool train = s + 1 == steps || sym::flag("train"); sym::Reals x = sym::reals("x", n); V xv = x, e = f(xv), old = xv; if (kink) for (double v : xv) ls_assume(v != 0); sym::check_eq(train ? l.training_forward(xv) : l.forward(xv), e, "layer output"); sym::check_eq(l.last_output(), e, "last output"); sym::check_eq(xv, old, "input unchanged"); if (!train) continue; V g = sym::reals("g", n), g0 = g; double q = 0; for (size_t i = 0; i < n; i++) q += g[i] * e[i]; const V& b = l.backward(g); ls_check(b.size() == n, "gradient size"); for (size_t i = 0; i < n; i++) ls_check_eq(b[i], sym::D(q, x[i]), "gradient with respect to the input"); sym::check_eq(g, g0, "output gradient unchanged"); V keep = b; sym::check_eq(l.last_input_gradient(), keep, "last input gradient"); if (n) ls_obsr("b", b[0]); }
  ls_reach("end"); }
template <class F> static V each(const V& x, F f) { V y; for (double v : x) y.push_back(f(v)); return y; }
static size_t size() { return sym::pick("n", 1, TIER(2, 3)); }
ENTRY(relu) { size_t n = size(); ReluLayer l("l", n); run(l, n, 2, true, [](const V& x) { return each(x, [](double v) { return v > 0 ? v : 0.0; }); }); }
ENTRY(elu) { size_t n = size(); double a = sym::real("alpha").v; ls_assume(a > 0); bool d = sym::flag("default"); EluLayer l = d ? EluLayer("l", n) : EluLayer("l", n, a); if (d) a = 1; run(l, n, n > 1 ? TIER(1, 2) : 2, true, [=](const V& x) { return each(x, [=](double v) { return v > 0 ? v : a * (std::exp(v) - 1); }); }); }
ENTRY(tanh) { size_t n = size(); TanhLayer l("l", n); run(l, n, 2, false, [](const V& x) { return each(x, [](double v) { return std::tanh(v); }); }); }
ENTRY(sigmoid) { size_t n = size(); SigmoidLayer l("l", n); run(l, n, 2, false, [](const V& x) { return each(x, [](double v) { return 1 / (1 + std::exp(-v)); }); }); }
ENTRY(linear) { size_t n = size(); LinearLayer l("l", n); run(l, n, TIER(2, 3), false, [](const V& x) { return x; }); }
ENTRY(softmax) { size_t n = sym::pick("n", 1, 3); SoftmaxLayer l("l", n); run(l, n, n > 2 ? 1 : 2, false, [](const V& x) { double s = 0; V y; for (double v : x) s += std::exp(v); for (double v : x) y.push_back(std::exp(v) / s); return y; }); }
template <class L> static void reshape() { size_t n = sym::pick("n", 1, 3); L l("l", 2); l.input_shape(LayerShape(n)); ls_check(l.input_size() == n && l.output_size() == n, "shape follows the input"); V x(n, 0.0), g = sym::reals("g", n); const V& y = l.training_forward(x); ls_check(y.size() == n, "output size after reshaping"); ls_check(l.backward(g).size() == n, "gradient size after reshaping"); }
ENTRY(reshaped) { switch (sym::pick("kind", 0, 5)) { case 0: reshape<ReluLayer>(); break; case 1: reshape<EluLayer>(); break; case 2: reshape<TanhLayer>(); break; case 3: reshape<SigmoidLayer>(); break; case 4: reshape<LinearLayer>(); break; default: reshape<SoftmaxLayer>(); } ls_reach("end"); }
// f: value, d: slope
template <class F, class D> static void big(Layer& l, size_t n, size_t at, F f, D d) { for (size_t s = 0; s < 2; s++) { V x = sym::mostly(n, at, sym::real("x").v), g = sym::reals("g", n), e = f(x), k = d(x, g); if (x[at] == 0) ls_kill(); sym::check_eq(s ? l.training_forward(x) : l.forward(x), e, "layer output"); if (s) sym::check_eq(l.backward(g), k, "gradient with respect to the input"); } ls_reach("end"); }
template <class D> static V slope(const V& x, const V& g, D d) { V y; for (size_t i = 0; i < x.size(); i++) y.push_back(g[i] * d(x[i])); return y; }
ENTRY(large) { size_t n = sym::flag("more") ? 18 : 9, k = sym::pick("kind", 0, 4), at = sym::pick("at", 0, n - 1); double a = sym::real("alpha").v; ls_assume(a > 0); switch (k) {
  case 0: { ReluLayer l("l", n); big(l, n, at, [](const V& x) { return each(x, [](double v) { return v > 0 ? v : 0.0; }); }, [](const V& x, const V& g) { return slope(x, g, [](double v) { return v > 0 ? 1.0 : 0.0; }); }); break; }
  case 1: { EluLayer l("l", n, a); big(l, n, at, [=](const V& x) { return each(x, [=](double v) { return v > 0 ? v : a * (std::exp(v) - 1); }); }, [=](const V& x, const V& g) { return slope(x, g, [=](double v) { return v > 0 ? 1.0 : a * std::exp(v); }); }); break; }
  case 2: { TanhLayer l("l", n); big(l, n, at, [](const V& x) { return each(x, [](double v) { return std::tanh(v); }); }, [](const V& x, const V& g) { return slope(x, g, [](double v) { return 1 - std::tanh(v) * std::tanh(v); }); }); break; }
  case 3: { SigmoidLayer l("l", n); big(l, n, at, [](const V& x) { return each(x, [](double v) { return 1 / (1 + std::exp(-v)); }); }, [](const V& x, const V& g) { return slope(x, g, [](double v) { double y = 1 / (1 + std::exp(-v)); return y * (1 - y); }); }); break; }
  default: { LinearLayer l("l", n); big(l, n, at, [](const V& x) { return x; }, [](const V& x, const V& g) { return slope(x, g, [](double) { return 1.0; }); }); } } }
