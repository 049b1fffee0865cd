// P34: dump and load
#include "sym.h"
#include "all_dnn.inc"
//@ bound (large) a dense layer of 6 to 9, a convolution of 4 filters of 2x3x2 and a recurrent layer of 3, 4 and 2 values
//@ bound dense 1..2 x 1..2 (thorough 1..3), convolution (2x2x1..2, kernels 1x2 and 2x1, 1..2 filters, strides, padding), recurrent (input 1..2, hidden 1..2, output 1..2, time steps 1..2, every hidden activation), pooling, dropout, 6 activations and 2 losses, each loaded into a layer of another size; in memory and through text; parameters symbolic reals in [-1000, 1000], the last one of each layer of either sign; models of 2..4 layers through a file
//@ assume numbers are written by std::to_string to six decimals and read by std::stod (both modelled); recurrent layers start from a zero hidden state
//@ H_same t=250 T=850 j=4
//@ H_other t=150 T=800
//@ H_model t=200 T=800
//@parallel 3
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath; using S3 = L::Shape3d; using S2 = L::Shape2d; using P = std::shared_ptr<Layer>;
enum { DENSE, CONV, REC, RELU, ELU, TANH, SIGM, LIN, SOFT, DROP, MAXP, AVGP, MSE, CCE, KINDS };
static P make(int k, const std::string& nm, bool other) { size_t a = 1, b = 1; auto two = [&] { if (!other) { a = sym::pick("a", 1, 2); b = sym::pick("b", 1, k == DENSE ? TIER(2, 3) : 2); } }; switch (k) { case DENSE: two(); return std::make_shared<DenseLayer>(nm, other ? 2 : a, other ? 1 : b);
    case CONV: if (other) return std::make_shared<ConvolutionalLayer>(nm, S3(2, 1, 1), S2(1, 1), 1); two(); return std::make_shared<ConvolutionalLayer>(nm, S3(2, 2, a), sym::flag("tall") ? S2(2, 1) : S2(1, 2), b, b == 2 ? S2(1, 2) : S2(1, 1), a == 2 ? S2(0, 1) : S2(0, 0));
    case REC: { if (other) return std::make_shared<RecurrentLayer>(nm, 1, 1, 1, 1); two(); size_t t = sym::pick("steps", 1, 2), h = sym::pick("hidden", 1, 2); auto act = sym::pick("act", 0, 2); auto ha = act == 0 ? RecurrentLayer::HiddenActivation::ReLU : act == 1 ? RecurrentLayer::HiddenActivation::TanH : RecurrentLayer::HiddenActivation::Linear; if (h == 2 && act != 1) ls_kill(); return std::make_shared<RecurrentLayer>(nm, a, b, h, t, ha); }
    default: break; }
  size_t n = other ? 3 : sym::pick("n", 1, 2); switch (k) { case RELU: return std::make_shared<ReluLayer>(nm, n); case ELU: return std::make_shared<EluLayer>(nm, n, other ? 1.0 : 0.5 * (double)n); case TANH: return std::make_shared<TanhLayer>(nm, n); case SIGM: return std::make_shared<SigmoidLayer>(nm, n); case LIN: return std::make_shared<LinearLayer>(nm, n); case SOFT: return std::make_shared<SoftmaxLayer>(nm, n); case DROP: return std::make_shared<DropoutLayer>(nm, n, other ? 0.75 : 0.25);
    case MAXP: return other ? std::make_shared<MaxPoolingLayer>(nm, S3(2, 2, 1), S2(2, 2), S2(2, 2)) : std::make_shared<MaxPoolingLayer>(nm, S3(1, 2, n), S2(1, n), S2(1, 1)); case AVGP: return other ? std::make_shared<AveragePoolingLayer>(nm, S3(2, 2, 1), S2(2, 2), S2(2, 2)) : std::make_shared<AveragePoolingLayer>(nm, S3(2, 1, n), S2(n, 1), S2(1, 1));
    case MSE: return std::make_shared<MeanSquaredLossLayer>(nm, n, 2, other ? 0.5 : 0.25); default: return std::make_shared<CategoricalCrossEntropyLossLayer>(nm, n, 2); } }
static bool g_tiny; static double last(const char* nm) { size_t k = sym::pick("sign", 0, 2); g_tiny = g_tiny || k == 2; return k == 0 ? sym::real(nm, 0, 1000).v : k == 1 ? sym::real(nm, -1000, -0.001).v : sym::real(nm, -0.001, 0).v; }
static V fill(Layer& l, const char* nm) { V p; size_t n = l.param_count(); for (size_t i = 0; i < n; i++) { p.push_back(i + 1 == n ? last(nm) : i % 2 ? sym::real(nm, -1000, -0.001).v : sym::real(nm, 0, 1000).v); l.param(i) = p.back(); } return p; }
static std::string text(const Json& j) { std::stringstream s; s << j; return s.str(); }
static void shapes(Layer& a, Layer& b) { ls_check(a.name() == b.name() && a.type() == b.type(), "name and kind"); auto eq = [](const LayerShape& x, const LayerShape& y) { return x.amount_shapes() == y.amount_shapes() && x.height() == y.height() && x.width() == y.width() && x.channels() == y.channels(); }; ls_check(eq(a.input_shape(), b.input_shape()) && eq(a.output_shape(), b.output_shape()), "input and output shape"); ls_check(a.input_size() == b.input_size() && a.output_size() == b.output_size() && a.param_count() == b.param_count(), "sizes"); }
static void load(Layer& b, const Json& j, bool viaText) { if (viaText) { std::stringstream s; s << j; Json k; s >> k; b.load(k); } else b.load(j); }
static size_t width(Layer& l) { auto r = dynamic_cast<RecurrentLayer*>(&l); return l.input_size() * (r ? r->time_steps() : 1); }
static V use(Layer& l, const V& x, V* back) { V y; auto s = dynamic_cast<LossLayer*>(&l); if (s) { V t(x.size(), 0.0); t[0] = 1; s->set_target(t); } if (!back) return l.forward(x); y = l.training_forward(x); V g(s ? 0 : y.size(), 1.0); *back = l.backward(g); return y; }
ENTRY(same) { int k = (int)sym::pick("kind", 0, KINDS - 1); P a = make(k, "first", false), b = make(k, "second", true); V p = fill(*a, "w"); for (size_t i = 0; i < b->param_count(); i++) b->param(i) = 0.25; bool t = sym::flag("text"); size_t shared = b->param_count(); for (size_t i = 0; i < shared; i++) b->gradient(i) = 0;
  Json d = a->dump(); for (size_t i = 0; i < p.size(); i++) ls_check_eq(a->param(i), p[i], "dumping changes nothing"); load(*b, d, t); shapes(*a, *b); for (size_t i = 0; i < p.size() && i < b->param_count(); i++) { double v = b->param(i); ls_check_le(v - p[i], 0.00000050001, "parameter to six decimals"); ls_check_le(p[i] - v, 0.00000050001, "parameter to six decimals"); ls_check_eq(b->gradient(i), 0, "loading leaves no gradient"); }
  if (!t && !g_tiny) ls_check(text(b->dump()) == text(d), "what was loaded is dumped again");
  for (size_t i = 0; i < p.size(); i++) a->param(i) = b->param(i); V x; for (size_t i = 0; i < width(*b); i++) x.push_back(k == CCE || k == MSE ? 0.25 * (double)(i + 1) : k == SOFT || p.size() > 12 ? 0.5 * (double)(i + 1) : sym::real("x").v); V y = use(*a, x, nullptr), z = use(*b, x, nullptr); sym::check_eq(z, y, "both predict the same"); if (k == DROP || k == REC) { ls_reach("end"); return; } V gb, gc; use(*a, x, &gb); use(*b, x, &gc); if (k != MSE && k != CCE) sym::check_eq(gc, gb, "both back-propagate the same"); for (size_t i = 0; i < p.size(); i++) ls_check_eq(b->gradient(i), a->gradient(i), "both accumulate the same gradient"); ls_reach("end"); }
// a dump of another kind (or no dump at all) raises an error and changes nothing
ENTRY(other) { int k = (int)sym::pick("kind", 0, KINDS - 1), o = (int)sym::pick("from", 0, KINDS); if (k == o) ls_kill(); P b = make(k, "second", true); V p; for (size_t i = 0; i < b->param_count(); i++) { p.push_back(0.5 + (double)i); b->param(i) = p.back(); } Json d; if (o < KINDS) d = make(o, "first", true)->dump(); std::string was = text(b->dump()); ls_check(sym::throws_as<std::runtime_error>([&] { b->load(d); }), "a dump of another kind is refused"); ls_check(text(b->dump()) == was && b->name() == "second", "a refused dump changes nothing"); for (size_t i = 0; i < p.size(); i++) ls_check_eq(b->param(i), p[i], "a refused dump changes no parameter"); ls_reach("end"); }
struct Net { Model m; std::vector<P> l; Net(size_t k, const char* nm, bool other) : m(nm) { auto d = [&](size_t i, size_t o) { l.push_back(m.add_layer<DenseLayer>(other ? "x" : "dense", i, o)); }; if (k == 0) { d(2, 1); } else if (k == 1) { d(1, 2); l.push_back(m.add_layer<TanhLayer>("act", other ? 1 : 2)); d(2, 1); } else if (k == 2) { l.push_back(m.add_layer<ConvolutionalLayer>("conv", S3(1, other ? 3 : 2, 1), S2(1, 2), 1)); l.push_back(m.add_layer<ReluLayer>("act", 1)); l.push_back(m.add_layer<DropoutLayer>("drop", 1, 0.5)); } else { l.push_back(m.add_layer<RecurrentLayer>("rec", 1, 1, 1, other ? 1 : 2)); }
    for (size_t i = 0; i + 1 < l.size(); i++) m.create_edge(l[i], l[i + 1]); if (k == 1) { auto s = m.add_loss<MeanSquaredLossLayer>(other ? "loss2" : "loss", 1, 1, other ? 0.5 : 0.25); m.create_loss_edge(l.back(), s); } } };
ENTRY(model) { size_t k = sym::pick("net", 0, 3); Net a(k, "modelA", false), b(k, "modelB", sym::flag("other")); std::vector<V> p; for (auto& x : a.l) p.push_back(fill(*x, "w")); sym::put_file("m.json", ""); { std::ofstream f("m.json", std::ios::trunc); a.m.dump(f); } { std::ifstream f("m.json"); b.m.load(f); } ls_check(b.m.name() == "modelA" && a.m.name() == "modelA", "model name"); ls_check(b.m.layers().size() == a.m.layers().size(), "layers");
  for (size_t j = 0; j < a.m.layers().size(); j++) { Layer &x = *a.m.layers()[j], &y = *b.m.layers()[j]; shapes(x, y); for (size_t i = 0; i < x.param_count(); i++) { ls_check_eq(x.param(i), p[j][i], "dumping changes nothing"); double v = y.param(i), w = p[j][i]; ls_check_le(v - w, 0.00000050001, "parameter to six decimals"); ls_check_le(w - v, 0.00000050001, "parameter to six decimals"); x.param(i) = v; } }
  V x; for (size_t i = 0; i < width(*a.l[0]); i++) x.push_back(sym::real("x").v); V e = a.m.predict(x); sym::check_eq(b.m.predict(x), e, "both predict the same"); ls_reach("end"); }
ENTRY(large) { size_t k = sym::pick("kind", 0, 2); P a, b; switch (k) { case 0: a = std::make_shared<DenseLayer>("first", 6, 9); b = std::make_shared<DenseLayer>("second", 1, 2); break; case 1: a = std::make_shared<ConvolutionalLayer>("first", S3(4, 5, 2), S2(2, 3), 4, S2(1, 2), S2(1, 0)); b = std::make_shared<ConvolutionalLayer>("second", S3(2, 1, 1), S2(1, 1), 1); break; default: a = std::make_shared<RecurrentLayer>("first", 3, 2, 4, 3); b = std::make_shared<RecurrentLayer>("second", 1, 1, 1, 1); }
  V p; for (size_t i = 0; i < a->param_count(); i++) { p.push_back(sym::real("w", 0.001, 1000).v * (i % 3 ? -1 : 1)); a->param(i) = p.back(); } Json d = a->dump(); load(*b, d, sym::flag("text")); shapes(*a, *b); for (size_t i = 0; i < p.size() && i < b->param_count(); i++) { double v = b->param(i); ls_check_le(v - p[i], 0.00000050001, "parameter to six decimals"); ls_check_le(p[i] - v, 0.00000050001, "parameter to six decimals"); } ls_reach("end"); }
