// P30: recurrent layer
#include "sym.h"
#include "all_dnn.inc"
//@ bound sequences of 1..4 steps (thorough 1..5; ReLU: 1..2, thorough 1..3, with steps x hidden size at most 2, thorough 3), input and output sizes 1..2, hidden size 1..3, steps x hidden size at most 8 (thorough 12), the hyperbolic tangent, ReLU and linear hidden activations, symbolic initial state, parameters, inputs and output gradients; one larger layer (3 inputs, 4 hidden, 3 outputs, 2 steps); 2 (quick) / 3 passes in a row
//@ assume ReLU inputs other than 0, where the derivative is defined; the gradient of a sequence takes the state it starts from as a constant
//@ H_tanh t=200 T=850 j=6 a=1
//@ H_relu t=120 T=850
//@ H_accumulate a=1
//@ H_carry a=1
//@ H_clone a=1
//@ H_large a=1
//@ H_reshape a=1
//@ H_steps a=1
using namespace EdgeLearning; using V = std::vector<double>; using R = RecurrentLayer; using A = R::HiddenActivation;
struct Net { size_t in, out, hid; A act; sym::Reals p; 
  // parameters in the order of the layer's param(): input-hidden, hidden-hidden, hidden bias, hidden-output, output bias
  V eval(const V& x, V& h) const { size_t T = x.size() / in, o1 = in * hid, o2 = o1 + hid * hid, o3 = o2 + hid, o4 = o3 + hid * out; V y; for (size_t t = 0; t < T; t++) { V n; for (size_t i = 0; i < hid; i++) { double z = p[o2 + i].v; for (size_t j = 0; j < in; j++) z += p[i * in + j].v * x[t * in + j]; for (size_t j = 0; j < hid; j++) z += p[o1 + i * hid + j].v * h[j]; if (act == A::TanH) z = std::tanh(z); else if (act == A::ReLU) { ls_assume(z != 0); if (!(z > 0)) z = 0; } n.push_back(z); } h = n; for (size_t i = 0; i < out; i++) { double s = p[o4 + i].v; for (size_t j = 0; j < hid; j++) s += p[o3 + i * hid + j].v * h[j]; y.push_back(s); } } return y; } };
static size_t count(size_t in, size_t out, size_t hid) { return (in + hid + 1) * hid + (hid + 1) * out; }
static Net net(R& l, size_t in, size_t out, size_t hid, A a) { Net n{in, out, hid, a, {}}; ls_check(l.param_count() == count(in, out, hid), "number of parameters"); n.p = sym::reals("w", l.param_count()); for (size_t k = 0; k < n.p.size(); k++) { l.param(k) = n.p[k].v; ls_check_eq(l.gradient(k), 0, "gradients start at zero"); } return n; }
static void start(R& l, V& h) { h = sym::reals("h", h.size()); l.hidden_state(h); }
static void train(R& l, const Net& n, size_t T, V& h, double& total) { sym::Reals x = sym::reals("x", T * n.in); V xv = x, e = n.eval(xv, h), g = sym::reals("g", T * n.out), gg = g; sym::check_eq(l.training_forward(xv), e, "output sequence"); sym::check_eq(l.last_output(), e, "last output"); double q = 0; for (size_t i = 0; i < e.size(); i++) q += g[i] * e[i]; total += q; const V& b = l.backward(g); ls_check(b.size() == T * n.in, "input gradient size"); for (size_t j = 0; j < b.size(); j++) ls_check_eq(b[j], sym::D(q, x[j]), "input gradient"); sym::check_eq(g, gg, "output gradient unchanged"); for (size_t k = 0; k < n.p.size(); k++) { ls_check_eq(l.gradient(k), sym::D(total, n.p[k]), "accumulated parameter gradient"); ls_check_eq(l.param(k), n.p[k].v, "parameters unchanged"); } }
static void shapes(A a, size_t lim, size_t tmax) { size_t in = sym::pick("in", 1, 2), out = sym::pick("out", 1, 2), hid = sym::pick("hid", 1, 3), T = sym::pick("T", 1, tmax); if (hid * T > lim || (in * out > 2 && hid * T > TIER(4, 8))) ls_kill(); R l("r", in, out, hid, T, a); Net n = net(l, in, out, hid, a); V h(hid); double t = 0; if (sym::flag("state")) start(l, h); train(l, n, T, h, t); ls_obsr("g", l.gradient(0)); ls_reach("end"); }
ENTRY(tanh) { shapes(A::TanH, TIER(8, 12), TIER(4, 5)); }
ENTRY(relu) { shapes(A::ReLU, TIER(2, 3), TIER(2, 3)); }
ENTRY(linear) { shapes(A::Linear, TIER(8, 12), TIER(4, 5)); }
ENTRY(large) { bool lin = sym::flag("lin"); A a = lin ? A::Linear : A::TanH; R l("r", 3, 3, 4, 2, a); Net n = net(l, 3, 3, 4, a); V h(4); double t = 0; start(l, h); train(l, n, 2, h, t); ls_reach("end"); }
// the hidden state carries over from a pass to the next, can be set and reset; gradients accumulate over passes
ENTRY(carry) { size_t T = sym::pick("T", 1, 3), hid = sym::pick("hid", 1, 2); A a = sym::flag("lin") ? A::Linear : A::TanH; if (hid * T > 4) ls_kill(); R l("r", 1, 1, hid, T, a); Net n = net(l, 1, 1, hid, a); V h(hid); for (size_t s = 0; s < TIER(2, 3); s++) { size_t what = sym::pick("what", 0, 2); if (what == 1) start(l, h); if (what == 2) { l.reset_hidden_state(); h.assign(hid, 0.0); } V x = sym::reals("x", T), e = n.eval(x, h); sym::check_eq(l.forward(x), e, "output sequence from the carried state"); } ls_reach("end"); }
ENTRY(accumulate) { size_t T = sym::pick("T", 1, 2), hid = sym::pick("hid", 1, 2); A a = sym::flag("lin") ? A::Linear : A::TanH; R l("r", 1, 1, hid, T, a); Net n = net(l, 1, 1, hid, a); V h(hid); double t = 0; for (size_t s = 0; s < TIER(2, 3); s++) { if (s || sym::flag("state")) { if (sym::flag("reset")) { l.reset_hidden_state(); h.assign(hid, 0.0); } else start(l, h); } train(l, n, T, h, t); } ls_reach("end"); }
ENTRY(steps) { size_t a = sym::pick("T", 0, 3), b = sym::pick("new", 1, 3); R l("r", 1, 2, 1, a); Net n = net(l, 1, 2, 1, A::TanH); V h(1); double t = 0; if (a && sym::flag("before")) { train(l, n, a, h, t); start(l, h); } l.time_steps(b); ls_check(l.time_steps() == b, "time steps"); train(l, n, b, h, t); ls_reach("end"); }
ENTRY(reshape) { size_t n = sym::pick("new", 1, 3); R l("r", 2, 1, 2, 2); l.input_shape(LayerShape(n)); ls_check(l.input_size() == n, "input size"); Net e = net(l, n, 1, 2, A::TanH); V h(2); double t = 0; train(l, e, 2, h, t); ls_reach("end"); }
ENTRY(clone) { R l("r", 1, 1, 2, 2); Net n = net(l, 1, 1, 2, A::TanH); V h(2), k(2); start(l, h); k = h; auto c = std::dynamic_pointer_cast<R>(l.clone()); double a = 0, b = 0; train(*c, n, 2, k, b); for (size_t i = 0; i < n.p.size(); i++) ls_check_eq(l.gradient(i), 0, "training a clone adds nothing to the original's gradients"); train(l, n, 2, h, a); for (size_t i = 0; i < n.p.size(); i++) ls_check_eq(c->gradient(i), sym::D(b, n.p[i]), "clone gradient"); ls_reach("end"); }
ENTRY(bounds) { size_t in = sym::pick("in", 1, 2), out = sym::pick("out", 1, 2), hid = sym::pick("hid", 1, 2); R l("r", in, out, hid, 1); size_t k = count(in, out, hid) + sym::range("past", 0, 0xffffffu); ls_check(sym::throws_as<std::runtime_error>([&] { l.param(k); }), "a parameter past the last is refused"); ls_check(sym::throws_as<std::runtime_error>([&] { l.gradient(k); }), "a gradient past the last is refused"); V h = sym::reals("h", hid + 1); ls_check(sym::throws_as<std::runtime_error>([&] { l.hidden_state(h); }), "a hidden state larger than the layer's is refused"); ls_reach("end"); }
