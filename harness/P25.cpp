// P25: dense layer
#include "sym.h"
#include "all_dnn.inc"
//@ bound input and output sizes 1..3 each (quick) / 1..4 each (thorough), histories of 2 (quick) / 3 (thorough) training passes with a prediction optionally before, inside or after each; sizes 1x9, 9x1, 8x5, 5x8, 17x2 (thorough also 16x16, 33x3) with one pass
using namespace EdgeLearning; using V = std::vector<double>;
struct Dense { DenseLayer l; sym::Reals w; size_t in, out; Dense(size_t i, size_t o) : l("d", i, o), in(i), out(o) { ls_check(l.param_count() == (i + 1) * o, "number of parameters"); w = sym::reals("w", l.param_count()); for (size_t k = 0; k < l.param_count(); k++) { l.param(k) = w[k].v; ls_check_eq(l.gradient(k), 0, "gradients start at zero"); } }
  V eval(const V& x) const { V y; for (size_t i = 0; i < out; i++) { double s = w[in * out + i].v; for (size_t j = 0; j < in; j++) s += w[i * in + j].v * x[j]; y.push_back(s); } return y; } };
static void passes(size_t in, size_t out, size_t steps, bool mix) { Dense d(in, out); double total = 0; V probe; auto predict = [&](const char* n) { V x = sym::reals(n, in); sym::check_eq(d.l.forward(x), d.eval(x), "prediction"); };
  for (size_t s = 0; s < steps; s++) { size_t when = mix ? sym::pick("predict", 0, 3) : 0; if (when == 1) predict("q"); sym::Reals x = sym::reals("x", in); V g = sym::reals("g", out), xv = x, e = d.eval(xv); sym::check_eq(d.l.training_forward(xv), e, "training output"); sym::check_eq(d.l.last_output(), e, "last output"); sym::check_eq(d.l.last_input(), xv, "last input"); if (when == 2) predict("q"); double q = 0; for (size_t i = 0; i < out; i++) q += g[i] * e[i]; total += q; V gg = g; const V& b = d.l.backward(g); ls_check(b.size() == in, "input gradient size"); for (size_t j = 0; j < in; j++) ls_check_eq(b[j], sym::D(q, x[j]), "input gradient"); V keep = b; sym::check_eq(d.l.last_input_gradient(), keep, "last input gradient"); sym::check_eq(g, gg, "output gradient unchanged"); if (when == 3) predict("q"); for (size_t k = 0; k < d.w.size(); k++) ls_check_eq(d.l.gradient(k), sym::D(total, d.w[k]), "accumulated parameter gradient"); for (size_t k = 0; k < d.w.size(); k++) ls_check_eq(d.l.param(k), d.w[k].v, "parameters unchanged"); }
  ls_obsr("g", d.l.gradient(0)); ls_reach("end"); }
ENTRY(small) { size_t i = sym::pick("in", 1, TIER(3, 4)), o = sym::pick("out", 1, TIER(3, 4)); passes(i, o, i * o > 4 ? 2 : TIER(2, 3), true); }
ENTRY(large) { static const size_t s[][2] = {{1, 9}, {9, 1}, {8, 5}, {5, 8}, {17, 2}, {16, 16}, {33, 3}}; size_t k = sym::pick("size", 0, TIER(4, 6)); passes(s[k][0], s[k][1], 1, false); }
ENTRY(bounds) { size_t i = sym::pick("in", 1, 2), o = sym::pick("out", 1, 2); Dense d(i, o); size_t k = (i + 1) * o + sym::range("past", 0, 0xffffffu); ls_check(sym::throws_as<std::runtime_error>([&] { d.l.param(k); }), "a parameter past the last is refused"); ls_check(sym::throws_as<std::runtime_error>([&] { d.l.gradient(k); }), "a gradient past the last is refused"); ls_reach("end"); }
// clones share parameters and keep their own gradients; a reshaped layer works at its new size
ENTRY(clone) { Dense d(2, 2); auto c = std::dynamic_pointer_cast<DenseLayer>(d.l.clone()); V x = sym::reals("x", 2), g = sym::reals("g", 2); c->training_forward(x); sym::check_eq(c->last_output(), d.eval(x), "clone output"); c->backward(g); for (size_t k = 0; k < 6; k++) ls_check_eq(d.l.gradient(k), 0, "training a clone adds nothing to the original's gradients"); V q = sym::reals("y", 2); d.l.training_forward(q); d.l.backward(g); for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 2; j++) { ls_check_eq(d.l.gradient(i * 2 + j), g[i] * q[j], "original gradient"); ls_check_eq(c->gradient(i * 2 + j), g[i] * x[j], "clone gradient"); } ls_reach("end"); }
ENTRY(reshape) { size_t o = sym::pick("out", 1, 2), n = sym::pick("new", 1, 3); DenseLayer l("d", 2, o); l.input_shape(LayerShape(n)); ls_check(l.param_count() == (n + 1) * o && l.input_size() == n, "parameters after reshaping"); sym::Reals w = sym::reals("w", l.param_count()), x = sym::reals("x", n); V g = sym::reals("g", o), xv = x; for (size_t k = 0; k < w.size(); k++) l.param(k) = w[k].v; double q = 0; V y = l.training_forward(xv); for (size_t i = 0; i < o; i++) { double s = w[n * o + i].v; for (size_t j = 0; j < n; j++) s += w[i * n + j].v * x[j].v; ls_check_eq(y[i], s, "output after reshaping"); q += g[i] * s; } const V& b = l.backward(g); ls_check(b.size() == n, "input gradient size"); for (size_t j = 0; j < n; j++) ls_check_eq(b[j], sym::D(q, x[j]), "input gradient after reshaping"); for (size_t k = 0; k < w.size(); k++) ls_check_eq(l.gradient(k), sym::D(q, w[k]), "parameter gradient after reshaping"); ls_reach("end"); }
