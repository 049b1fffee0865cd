// P33: model
#include "sym.h"
#include "all_dnn.inc"
#include <map>
//@ bound (large) predictions of chains with layers of up to 9 values and up to 5 dense layers; one training step of chains such as 3-5-4 and 2-9-2
//@ bound prediction: every chain of 1..2 (thorough 3) layers among dense, linear, ReLU, tanh, sigmoid, ELU, softmax, dropout (which passes its input on when predicting) and (first) convolution or average pooling, sizes 1..2, 2 predictions; training: 22 chains of 1..4 layers with mean squared error (thorough: 28), batch sizes 1..2, histories of 2 (thorough 3) steps with predictions in between, gradient descent between batches; softmax with cross entropy; copies and assignments of a model taken after 0..2 steps; models with two losses (two heads on the first layer, two losses on one layer, a head without a loss, heads on an inner layer), batch sizes 1..2, 1 step (thorough 1..2); all inputs, targets and parameters symbolic reals
//@ assume chains apart from the models with two losses; exp and tanh are the exact real functions; softmax combined with another transcendental activation is outside; cross entropy predictions above the clamp; kinks of ReLU and ELU excluded for gradients
//@ H_predict t=250 T=850 a=1
//@ H_train t=250 T=850 a=1 j=4
//@ H_cross_entropy t=200 T=850
//@ H_copies t=150 T=800 a=1
//@parallel 3
using namespace EdgeLearning; using V = std::vector<double>; using DL = DLMath;
struct Node { char kind; size_t in, out, p; };
struct Chain { std::vector<Node> n; sym::Reals w; size_t in = 0, out = 0, params = 0; bool kinks = true;
  // dense D, linear L, ReLU R, tanh T, sigmoid S, ELU E, softmax X, convolution C (1x(out+1), kernel 1x2), average pooling A (2 -> 1)
  void add(char k, size_t out_) { size_t i = n.empty() ? in : out; Node q{k, i, k == 'D' ? out_ : k == 'C' ? i - 1 : k == 'A' ? i / 2 : i, params}; params += k == 'D' ? (i + 1) * q.out : k == 'C' ? 3 : 0; n.push_back(q); out = q.out; }
  void parse(const char* s) { in = (size_t)(*s++ - '0'); for (; *s; s++) { char k = *s; size_t o = 0; if (k == 'D') o = (size_t)(*++s - '0'); add(k, o); } }
  V eval(const V& x) const { V a = x; for (auto& q : n) { V b(q.out); double sum = 0; if (q.kind == 'X') for (double v : a) sum += std::exp(v); for (size_t i = 0; i < q.out; i++) switch (q.kind) {
      case 'D': b[i] = w[q.p + q.in * q.out + i].v; for (size_t j = 0; j < q.in; j++) b[i] += w[q.p + i * q.in + j].v * a[j]; break;
      case 'C': b[i] = w[q.p + 2].v + w[q.p].v * a[i] + w[q.p + 1].v * a[i + 1]; break;
      case 'A': b[i] = (a[2 * i] + a[2 * i + 1]) / 2; break;
      case 'L': case 'O': b[i] = a[i]; break;
      case 'R': if (kinks) ls_assume(a[i] != 0); b[i] = a[i] > 0 ? a[i] : 0.0; break;
      case 'T': b[i] = std::tanh(a[i]); break;
      case 'S': b[i] = 1 / (1 + std::exp(-a[i])); break;
      case 'E': if (kinks) ls_assume(a[i] != 0); b[i] = a[i] > 0 ? a[i] : std::exp(a[i]) - 1; break;
      case 'X': b[i] = std::exp(a[i]) / sum; break; } a = b; } return a; } };
struct Net { Model m; Chain c; std::vector<Layer::SharedPtr> l; std::shared_ptr<LossLayer> loss; Net() : m("m") {}
  Layer::SharedPtr make(Model& o, const Node& q) { switch (q.kind) { case 'D': return o.add_layer<DenseLayer>("d", q.in, q.out); case 'C': return o.add_layer<ConvolutionalLayer>("c", DL::Shape3d(1, q.in, 1), DL::Shape2d(1, 2), 1); case 'A': return o.add_layer<AveragePoolingLayer>("a", DL::Shape3d(1, q.in, 1), DL::Shape2d(1, 2), DL::Shape2d(1, 2)); case 'L': return o.add_layer<LinearLayer>("l", q.in); case 'O': return o.add_layer<DropoutLayer>("o", q.in, 0.5); case 'R': return o.add_layer<ReluLayer>("r", q.in); case 'T': return o.add_layer<TanhLayer>("t", q.in); case 'S': return o.add_layer<SigmoidLayer>("s", q.in); case 'E': return o.add_layer<EluLayer>("e", q.in, 1.0); default: return o.add_layer<SoftmaxLayer>("x", q.in); } }
  void build(int lossKind, size_t batch, double tol = 0.5) { for (auto& q : c.n) l.push_back(make(m, q)); for (size_t i = 0; i + 1 < l.size(); i++) m.create_edge(l[i], l[i + 1]); if (lossKind == 1) loss = m.add_loss<MeanSquaredLossLayer>("mse", c.out, batch, tol); if (lossKind == 2) loss = m.add_loss<CategoricalCrossEntropyLossLayer>("cce", c.out, batch); if (loss) m.create_loss_edge(l.back(), loss); c.w = sym::reals("w", c.params); size_t k = 0; for (auto& x : l) for (size_t i = 0; i < x->param_count(); i++) { ls_check_eq(x->gradient(i), 0, "gradients start at zero"); x->param(i) = c.w[k++].v; } ls_check(k == c.params, "number of parameters"); shape(m, l, loss); }
  void shape(Model& o, const std::vector<Layer::SharedPtr>& q, std::shared_ptr<LossLayer> s) { ls_check(o.input_size() == c.in && o.output_size() == c.out, "input and output size"); ls_check(o.input_layers().size() == 1 && o.input_layers()[0] == q.front() && o.output_layers().size() == 1 && o.output_layers()[0] == q.back(), "input and output layers"); ls_check(o.loss_layers().size() == (s ? 1u : 0u) && (!s || o.loss_layers()[0] == s), "loss layers"); ls_check(o.layers().size() == q.size() + (s ? 1 : 0) && o.name() == "m", "layers and name"); for (size_t i = 0; i < q.size(); i++) ls_check(o.layers()[i] == q[i], "layers in the order they were added"); }
  void predict(Model& o, const char* nm) { V x = sym::reals(nm, c.in), e = c.eval(x), old = x; const V& y = o.predict(x); sym::check_eq(y, e, "a prediction is the composition of the layers"); sym::check_eq(x, old, "input unchanged"); }
  double& g(const std::vector<Layer::SharedPtr>& q, size_t i) { size_t k = 0; while (i >= q[k]->param_count()) i -= q[k++]->param_count(); return q[k]->gradient(i); } double& p(const std::vector<Layer::SharedPtr>& q, size_t i) { size_t k = 0; while (i >= q[k]->param_count()) i -= q[k++]->param_count(); return q[k]->param(i); }
  // any target is the prediction plus an arbitrary error; returns a term whose derivative by a parameter is that of the summed element losses
  double step(Model& o, double& mean) { V x = sym::reals("x", c.in), d = sym::reals("err", c.out), e = c.eval(x), t; for (size_t i = 0; i < c.out; i++) t.push_back(e[i] + d[i]); V x0 = x, t0 = t; o.step(x, t); sym::check_eq(x, x0, "input unchanged"); sym::check_eq(t, t0, "target unchanged"); double s = 0, q = 0; for (size_t i = 0; i < c.out; i++) { s += d[i] * d[i]; q += -2 * d[i] * e[i]; } mean = s / (double)c.out; return q; }
  void grads(const std::vector<Layer::SharedPtr>& q, double total, const char* msg) { for (size_t i = 0; i < c.params; i++) { ls_check_eq(g(q, i), sym::D(total, c.w[i]), msg); ls_check_eq(p(q, i), c.w[i].v, "a step leaves the parameters"); } } };
ENTRY(predict) { Net n; n.c.kinks = false; static const char k[] = "DLRTSEXOCA"; n.c.in = sym::pick("in", 1, 2); size_t len = sym::pick("layers", 1, TIER(2, 3)); for (size_t i = 0; i < len; i++) { size_t q = sym::pick("kind", 0, i ? 7 : 9); for (auto& z : n.c.n) { auto tr = [](char c) { return c == 'S' || c == 'T' || c == 'E' || c == 'X'; }; if (tr(z.kind) && tr(k[q]) && (z.kind == 'X' || k[q] == 'X')) ls_kill(); } if (q > 7) n.c.in = 2 + (q == 8 && n.c.in == 2); n.c.add(k[q], k[q] == 'D' ? sym::pick("out", 1, 2) : 0); } n.build((int)sym::pick("loss", 0, 1), 1); n.predict(n.m, "q"); n.predict(n.m, "r"); ls_reach("end"); }
static const char* chains[] = {"1D1", "2D2", "2D1", "1D2", "1LD1", "1D1D1", "2D1D2", "1D2D1", "1D1TD1", "1RD1", "3CD1", "4AD1", "2TD2L", "1SD1", "1D1SD1", "2D2LD1", "1D1RD1", "1ED1", "3CTD1", "1D1D1D1", "2D2TD2", "2D2D2", "3D2D1", "3CD2", "4CLD1", "2D1ED1", "4D3", "2D2D2D1"};
ENTRY(train) { Net n; n.c.parse(chains[sym::pick("chain", 0, TIER(21, 27))]); size_t B = sym::pick("batch", 1, 2); n.build(1, B, 0.5); GradientDescentOptimizer o(0.25); size_t steps = n.c.params > 4 ? 2 : TIER(2, 3); size_t where = sym::pick("predict", 0, 2); double total = 0, loss = 0, L = 0;
  for (size_t s = 0; s < steps; s++) { if (where == 1) n.predict(n.m, "q"); total += n.step(n.m, L) / (double)B; loss += L; if (where == 2) n.predict(n.m, "q"); n.grads(n.l, total, "accumulated gradient is the derivative of the summed element losses over the batch size"); }
  ls_check_eq(n.m.avg_loss() * (double)steps, loss, "mean loss of the steps"); n.m.reset_score(); V p, g; for (size_t i = 0; i < n.c.params; i++) { p.push_back(n.p(n.l, i)); g.push_back(n.g(n.l, i)); } n.m.train(o);
  for (size_t i = 0; i < n.c.params; i++) { ls_check_eq(n.p(n.l, i), p[i] - 0.25 * g[i], "a batch step moves a parameter by minus learning rate times its gradient"); ls_check_eq(n.g(n.l, i), 0, "gradients are cleared"); } ls_obsr("p", n.p(n.l, 0)); ls_reach("end"); }
// a second batch starts from the moved parameters and no gradient
ENTRY(batches) { Net n; n.c.parse(sym::flag("two") ? "1D1D1" : "2D1"); n.build(1, 1); GradientDescentOptimizer o(0.5); double L = 0; n.step(n.m, L); n.m.train(o); n.c.w = sym::reals("v", n.c.params); for (size_t i = 0; i < n.c.params; i++) n.p(n.l, i) = n.c.w[i].v; n.predict(n.m, "q"); n.m.reset_score(); double t = n.step(n.m, L); n.grads(n.l, t, "gradient of the second batch"); ls_check_eq(n.m.avg_loss(), L, "score of the second batch"); ls_reach("end"); }
ENTRY(cross_entropy) { Net n; n.c.parse(sym::flag("dense") ? "1D2X" : "2X"); n.build(2, 2); size_t hot = sym::pick("class", 0, 1); V t(2, 0.0); t[hot] = 1; V x = sym::reals("x", n.c.in), e = n.c.eval(x); ls_assume(e[0] > 0.001 && e[1] > 0.001 && e[0] != e[1]); n.m.step(x, t); double q = -std::log(e[hot]) / 2; for (size_t i = 0; i < n.c.params; i++) ls_check_eq(n.g(n.l, i), sym::D(q, n.c.w[i]), "gradient through softmax and cross entropy"); ls_check_eq(n.m.accuracy(), (e[hot] > e[1 - hot]) ? 1.0 : 0.0, "accuracy of one step"); n.predict(n.m, "q"); ls_reach("end"); }
// copies share parameters, keep their own gradients and connections, and train the same
static void follow(Net& n, Model& c, double total) { std::vector<Layer::SharedPtr> q(c.layers().begin(), c.layers().end() - 1); auto s = std::dynamic_pointer_cast<LossLayer>(c.layers().back()); n.shape(c, q, s); for (size_t i = 0; i < q.size(); i++) ls_check(q[i] != n.l[i] && q[i]->name() == n.l[i]->name() && q[i]->type() == n.l[i]->type(), "a copy has layers of its own of the same kinds"); n.predict(c, "q"); n.predict(n.m, "r"); V before; for (size_t i = 0; i < n.c.params; i++) before.push_back(n.g(q, i)); double L = 0, t = n.step(c, L); for (size_t i = 0; i < n.c.params; i++) ls_check_eq(n.g(q, i), before[i] + sym::D(t, n.c.w[i]), "the copy accumulates its gradient"); n.grads(n.l, total, "steps of a copy leave the original's gradients");
  GradientDescentOptimizer o(0.5); V g; for (size_t i = 0; i < n.c.params; i++) g.push_back(n.g(q, i)); if (sym::flag("from")) n.m.train(o, c); else c.train(o); for (size_t i = 0; i < n.c.params; i++) { ls_check_eq(n.p(n.l, i), n.c.w[i].v - 0.5 * g[i], "training with the copy's gradients moves the shared parameters"); ls_check_eq(n.p(q, i), n.p(n.l, i), "shared parameters"); } }
ENTRY(copies) { Net n; n.c.parse(sym::flag("two") ? "1D1D1" : "1TD1"); n.build(1, 1); double total = 0, L = 0; size_t steps = sym::pick("steps", 0, 1); for (size_t s = 0; s < steps; s++) total += n.step(n.m, L); size_t how = sym::pick("how", 0, 2); if (how == 0) { Model c(n.m); follow(n, c, total); } else { Model c("other"); if (how == 2) { auto a = c.add_layer<LinearLayer>("z", SizeType(3)); auto b = c.add_layer<LinearLayer>("y", SizeType(3)); c.create_edge(a, b); } c = n.m; follow(n, c, total); } ls_reach("end"); }
// a copied or assigned model can be extended like the original
ENTRY(extend) { Net n; n.c.parse("1D1"); n.build(0, 1); bool assign = sym::flag("assign"); Model c(assign ? Model("other") : Model(n.m)); if (assign) c = n.m; Layer::SharedPtr last = c.layers().back(); auto t = c.add_layer<TanhLayer>("t", SizeType(1)); c.create_edge(last, t); n.predict(n.m, "q"); V x = sym::reals("x", 1), e = n.c.eval(x); sym::check_eq(c.predict(x), V{std::tanh(e[0])}, "the extended copy"); ls_check(c.layers().size() == 2 && n.m.layers().size() == 1, "the original is not extended"); Model d("third"); swap(d, c); ls_check(c.layers().empty() && c.name() == "third" && d.name() == "m", "swapped"); sym::check_eq(d.predict(x), V{std::tanh(e[0])}, "the swapped model"); auto u = d.add_layer<LinearLayer>("u", SizeType(1)); d.create_edge(d.layers()[1], u); sym::check_eq(d.predict(x), V{std::tanh(e[0])}, "the swapped model extended"); ls_reach("end"); }
ENTRY(empty) { Model m("e"); ls_check(m.input_size() == 0 && m.output_size() == 0 && m.layers().empty(), "an empty model"); V x; ls_check(sym::throws_as<std::runtime_error>([&] { m.predict(x); }), "an empty model cannot predict"); size_t k = sym::range("index", 1, 0xffffffu); Net n; n.c.parse("2D1"); n.build(1, 1); ls_check(n.m.input_size(k) == 0 && n.m.output_size(k) == 0, "no such input or output layer"); ls_reach("end"); }
// several losses: two heads on the first layer, two losses on one layer, and heads on an inner layer; every target is the prediction of the first head plus an arbitrary error
struct Heads { Model m; std::vector<Layer::SharedPtr> l; sym::Reals w; std::vector<std::shared_ptr<LossLayer>> s; Heads() : m("m") {}
  void add() { l.push_back(m.add_layer<DenseLayer>("d", SizeType(1), SizeType(1))); } void head(Layer::SharedPtr a, size_t B) { s.push_back(m.add_loss<MeanSquaredLossLayer>("mse", SizeType(1), B, 0.5)); m.create_loss_edge(a, s.back()); }
  void params() { w = sym::reals("w", 2 * l.size()); for (size_t i = 0; i < w.size(); i++) l[i / 2]->param(i % 2) = w[i].v; } double at(size_t i, double x) { return w[2 * i].v * x + w[2 * i + 1].v; } };
static void heads(size_t how) { Heads h; size_t B = sym::pick("batch", 1, 2), n = how == 1 ? 1 : how == 3 ? 4 : 3; for (size_t i = 0; i < n; i++) h.add(); size_t a = how == 3, b = a + 1, c = a + 2;
  if (how == 3) h.m.create_edge(h.l[0], h.l[1]); if (how != 1) { h.m.create_edge(h.l[a], h.l[b]); h.m.create_edge(h.l[a], h.l[c]); h.head(h.l[b], B); if (how != 2) h.head(h.l[c], B); } else { h.head(h.l[0], B); h.head(h.l[0], B); }
  h.params(); double total = 0, loss = 0; size_t steps = sym::pick("steps", 1, TIER(1, 2));
  for (size_t k = 0; k < steps; k++) { double x = sym::real("x").v, t = sym::real("t").v, z = how == 3 ? h.at(0, x) : x, y = h.at(a, z), u = how == 1 ? y : h.at(b, y), v = how == 1 ? y : h.at(c, y); h.m.step(V{x}, V{t}); double q = (u - t) * (u - t), r = how == 2 ? 0.0 : (v - t) * (v - t); total += (q + r) / (double)B; loss += how == 2 ? q : (q + r) / 2; }
  for (size_t i = 0; i < h.w.size(); i++) ls_check_eq(h.l[i / 2]->gradient(i % 2), sym::D(total, h.w[i]), how == 3 && i < 2 ? "gradient of a layer before one that feeds several layers" : "gradient of the sum of all losses");
  ls_check_eq(h.m.avg_loss() * (double)steps, loss, "mean loss over the losses"); double x = sym::real("q").v, z = how == 3 ? h.at(0, x) : x, y = h.at(a, z); ls_check_eq(h.m.predict(V{x}).at(0), how == 1 ? y : h.at(b, y), "prediction of the first output"); ls_reach("end"); }
ENTRY(heads) { heads(sym::pick("how", 0, 2)); }
ENTRY(inner_heads) { heads(3); }
ENTRY(large) { Net n; static const char* big[] = {"7D9TD5D3", "9D9D9", "2D3D2D3D2D1", "8TD5ST"}; static const char* some[] = {"3D5D4", "5D3LD4", "2D9D2", "9D1D5"}; bool train = sym::flag("train"); n.c.parse((train ? some : big)[sym::pick("chain", 0, 3)]); n.c.kinks = false; n.build(1, 2, 0.5); if (!train) { n.predict(n.m, "q"); n.predict(n.m, "r"); } else { double L = 0, t = n.step(n.m, L) / 2; n.grads(n.l, t, "gradient of a larger model"); ls_check_eq(n.m.avg_loss(), L, "loss of a larger model"); n.predict(n.m, "q"); } ls_reach("end"); }
