// P24: optimiser steps
#include "sym.h"
#include "all_dnn.inc"
//@ bound (large) two dense layers (5 to 4, 4 to 9) and a convolution of 3 filters of 2x3x2: two gradient descent steps, one Adam step
//@ bound dense layers of 1..2 x 1..2 and convolution of 1 filter 1x2 and batches of two layers; histories of 3 (quick) / 4 (thorough) steps with symbolic gradients, one of which may be preceded by a reset; Adam with coefficients (0.9, 0.999, 1e-8) and (0.5, 0.25, 1); symbolic learning rate
//@ assume sqrt is the exact real square root
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath;
struct Net { std::vector<std::shared_ptr<Layer>> l; size_t n() const { size_t c = 0; for (auto& x : l) c += x->param_count(); return c; } double& p(size_t i) { size_t k = 0; while (i >= l[k]->param_count()) i -= l[k++]->param_count(); return l[k]->param(i); } double& g(size_t i) { size_t k = 0; while (i >= l[k]->param_count()) i -= l[k++]->param_count(); return l[k]->gradient(i); } };
static std::shared_ptr<Layer> mk(size_t k) { if (k == 4) return std::make_shared<ConvolutionalLayer>("c", L::Shape3d(1, 2, 1), L::Shape2d(1, 2), 1); return std::make_shared<DenseLayer>("d", 1 + k % 2, 1 + k / 2); }
static void fill(Net& n, const char* nm, bool grads) { for (size_t i = 0; i < n.n(); i++) (grads ? n.g(i) : n.p(i)) = sym::real(nm).v; }
static Net net() { Net n; size_t k = sym::pick("net", 0, TIER(3, 5)); if (k < 3) n.l = {mk(k == 0 ? 0 : k == 1 ? 1 : 3)}; else if (k == 3) n.l = {mk(4), mk(0)}; else n.l = {mk(1), mk(2)}; return n; }
ENTRY(gd) { Net n = net(); double eta = sym::real("eta").v; fill(n, "w", false); GradientDescentOptimizer o(eta); V p; for (size_t i = 0; i < n.n(); i++) p.push_back(n.p(i));
  for (size_t s = 0; s < TIER(3, 4); s++) { fill(n, "g", true); for (size_t i = 0; i < n.n(); i++) p[i] -= eta * n.g(i); if (s == 1) o.reset(); for (auto& l : n.l) { if (s == 2) o.train_check(*l, *l); else o.train(*l); } for (size_t i = 0; i < n.n(); i++) { ls_check_eq(n.p(i), p[i], "parameter after a gradient descent step"); ls_check_eq(n.g(i), 0, "gradient cleared"); } }
  ls_obsr("p", n.p(0)); ls_reach("end"); }
ENTRY(adam) { Net n = net(); size_t c = sym::pick("coef", 0, 1); double eta = sym::real("eta").v, b1 = c ? 0.5 : 0.9, b2 = c ? 0.25 : 0.999, eps = c ? 1 : 1e-8; fill(n, "w", false); auto o = c ? AdamOptimizer(eta, b1, b2, eps) : AdamOptimizer(eta); size_t N = n.n(), rs = sym::pick("reset", 0, TIER(3, 4)), t = 0; V p, m(N, 0.0), v(N, 0.0); for (size_t i = 0; i < N; i++) p.push_back(n.p(i)); double q1 = 1, q2 = 1;
  for (size_t s = 1; s <= TIER(3, 4); s++) { if (s == rs + 1 && rs) { o.reset(); q1 = q2 = 1; m.assign(N, 0.0); v.assign(N, 0.0); } fill(n, "g", true); t++; q1 *= b1; q2 *= b2; for (size_t i = 0; i < N; i++) { double g = n.g(i); m[i] = b1 * m[i] + (1 - b1) * g; v[i] = b2 * v[i] + (1 - b2) * g * g; p[i] -= eta * (m[i] / (1 - q1)) / (std::sqrt(v[i] / (1 - q2)) + eps); }
    for (auto& l : n.l) o.train(*l); for (size_t i = 0; i < N; i++) { ls_check_eq(n.p(i), p[i], "parameter after an Adam step"); ls_check_eq(n.g(i), 0, "gradient cleared"); } }
  ls_obsr("p", n.p(0)); ls_reach("end"); }
// gradients of one layer applied to another
ENTRY(from_to) { size_t k = sym::pick("k", 0, 4), j = sym::pick("j", 0, 4); Net a, b; a.l = {mk(k)}; b.l = {mk(j)}; fill(a, "a", false); fill(b, "b", false); fill(a, "ga", true); fill(b, "gb", true); double eta = sym::real("eta").v; V pa, pb, ga, gb; for (size_t i = 0; i < a.n(); i++) { pa.push_back(a.p(i)); ga.push_back(a.g(i)); } for (size_t i = 0; i < b.n(); i++) { pb.push_back(b.p(i)); gb.push_back(b.g(i)); } GradientDescentOptimizer o(eta); bool bad = a.n() != b.n(); ls_check(sym::throws_as<std::runtime_error>([&] { o.train_check(*a.l[0], *b.l[0]); }) == bad, "layers with different numbers of parameters are refused"); for (size_t i = 0; i < a.n(); i++) { ls_check_eq(a.p(i), pa[i], "the layer giving its gradients keeps its parameters"); ls_check_eq(a.g(i), bad ? ga[i] : 0, "gradients cleared only when used"); } for (size_t i = 0; i < b.n(); i++) { ls_check_eq(b.p(i), bad ? pb[i] : pb[i] - eta * ga[i], "parameters moved by the other layer's gradients"); ls_check_eq(b.g(i), gb[i], "the trained layer keeps its own gradients"); } ls_reach("end"); }
ENTRY(none) { ReluLayer r("r", 2); AdamOptimizer a(0.1); GradientDescentOptimizer g(0.1); a.train(r); g.train(r); ls_reach("end"); }
ENTRY(large) { Net n; n.l = {std::make_shared<DenseLayer>("d", 5, 4), std::make_shared<DenseLayer>("e", 4, 9), std::make_shared<ConvolutionalLayer>("c", L::Shape3d(4, 5, 2), L::Shape2d(2, 3), 3)}; double eta = sym::real("eta").v; fill(n, "w", false); fill(n, "g", true); V p, g; for (size_t i = 0; i < n.n(); i++) { p.push_back(n.p(i)); g.push_back(n.g(i)); } bool adam = sym::flag("adam"); GradientDescentOptimizer o(eta); AdamOptimizer a(eta, 0.5, 0.75, 1e-3); for (size_t s = 0; s < (adam ? 1 : 2); s++) { for (auto& l : n.l) if (adam) a.train(*l); else o.train(*l); for (size_t i = 0; i < n.n(); i++) { p[i] -= adam ? eta * g[i] / (std::sqrt(g[i] * g[i]) + 1e-3) : eta * g[i]; ls_check_eq(n.p(i), p[i], adam ? "parameter after an Adam step" : "parameter after a gradient descent step"); ls_check_eq(n.g(i), 0, "gradient cleared"); } fill(n, "g", true); for (size_t i = 0; i < n.n(); i++) g[i] = n.g(i); } ls_reach("end"); }
