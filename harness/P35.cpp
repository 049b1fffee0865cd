// P35: networks built from layer descriptors
#include "sym.h"
#include "all_mw.inc"
//@ bound (large) networks 7-9-5 and a 6x5x3 image through 4 filters, average pooling and 3 dense outputs; training again (1 dense layer, 1..2 entries); the per-framework model of the dynamic network: 2-3-1, both losses, every initialisation
//@ bound descriptors: every kind, any setting (symbolic sizes and probability), through constructors and setters; networks: an input of 1..2 values or an image of 1x2x1, 2x2x1, 1x3x2 and 2x1x2 followed by 1..2 (thorough 3) layers of every kind (dense 1..2, convolution, max and average pooling with symbolic-choice kernels, strides and padding, dropout) with every activation, 1..2 predicted entries, weights from every outcome of the generator; evaluation: 1..3 labelled entries, both losses, labels before, after and between the inputs; training: 3 networks, 1..2 (thorough 3; the one with a tanh layer 1) entries with symbolic values in one epoch, 2 epochs over fixed values, batch sizes 1..2, both optimisers (Adam: one entry), all initial weights symbolic
//@ assume the first descriptor is the input and kernels fit their input; predicted data sets carry no labels; softmax combined with another transcendental activation and kinks (ReLU, ELU, max pooling) behind a transcendental activation are outside, as are chains with more than one (thorough two) of those kinks; cross entropy predictions above the clamp and without ties; the oracle network is a Model built by hand from the same layer classes (P25..P33), initialised from the same seed
//@ H_one t=200 T=800 a=1 f=0 j=4
//@ H_chain t=250 T=850 a=1 f=0 j=6
//@ H_evaluate t=200 T=800 a=1 j=4
//@ H_train t=250 T=850 j=3 a=1
//@parallel 3
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath; using S3 = L::Shape3d; using S2 = L::Shape2d; using AT = ActivationType;
using Net = EdgeFeedforwardNeuralNetwork<LossType::MSE, InitType::AUTO, ParallelizationLevel::SEQUENTIAL, double>;
static const AT acts[] = {AT::ReLU, AT::ELU, AT::Softmax, AT::TanH, AT::Sigmoid, AT::Linear, AT::None};
static bool eq(const S2& a, size_t h, size_t w) { return a.height() == h && a.width() == w; }
static size_t any(const char* n) { return sym::range(n, 1, 0xffffu); }
static void same(const LayerSetting& s, size_t units, size_t f, S2 k, S2 st, S2 p, double d) { ls_check(s.units().amount_shapes() == 1 && s.units().size() == units, "units"); ls_check(s.n_filters() == f, "number of filters"); ls_check(eq(s.kernel_shape(), k.height(), k.width()), "kernel shape"); ls_check(eq(s.stride(), st.height(), st.width()), "stride"); ls_check(eq(s.padding(), p.height(), p.width()), "padding"); ls_check_eq(s.drop_probability(), d, "drop probability"); }
static void is(const LayerDescriptor& d, const char* nm, LayerType t, AT a) { ls_check(d.name() == nm && d.type() == t && d.activation_type() == a, "name, kind and activation"); }
ENTRY(descriptors) { AT a = acts[sym::pick("act", 0, 6)]; bool dflt = sym::flag("default activation"); if (dflt && a != AT::Linear) ls_kill(); bool ds = sym::flag("default geometry"); size_t n = any("n"), kh = any("kh"), kw = any("kw"), sh = any("sh"), sw = any("sw"), ph = any("ph"), pw = any("pw"); double p = sym::real("p"); S2 K(kh, kw), S(sh, sw), P(ph, pw), Z(0), O(1);
  switch (sym::pick("kind", 0, 5)) {
    case 0: { size_t h = sym::pick("h", 1, 3), w = any("w"), c = any("c"); Input d("i", S3(h, w, c)); is(d, "i", LayerType::Input, AT::Linear); same(d.setting(), h * w * c, 0, Z, Z, Z, 0); ls_check(d.setting().units().height() == h && d.setting().units().width() == w && d.setting().units().channels() == c, "input shape"); Input e("i", n); same(e.setting(), n, 0, Z, Z, Z, 0); break; }
    case 1: { Dense d = dflt ? Dense("d", n) : Dense("d", n, a); is(d, "d", LayerType::Dense, a); same(d.setting(), n, 0, Z, Z, Z, 0); break; }
    case 2: { Conv::ConvSetting s = ds ? Conv::ConvSetting(n, K) : Conv::ConvSetting(n, K, S, P); Conv d = dflt ? Conv("c", s) : Conv("c", s, a); is(d, "c", LayerType::Conv, a); same(d.setting(), 0, n, K, ds ? O : S, ds ? Z : P, 0); break; }
    case 3: { MaxPool::MaxPoolSetting s = ds ? MaxPool::MaxPoolSetting(K) : MaxPool::MaxPoolSetting(K, S); MaxPool d = dflt ? MaxPool("m", s) : MaxPool("m", s, a); is(d, "m", LayerType::MaxPool, a); same(d.setting(), 0, 0, K, ds ? O : S, Z, 0); break; }
    case 4: { AvgPool::AvgPoolSetting s = ds ? AvgPool::AvgPoolSetting(K) : AvgPool::AvgPoolSetting(K, S); AvgPool d = dflt ? AvgPool("v", s) : AvgPool("v", s, a); is(d, "v", LayerType::AvgPool, a); same(d.setting(), 0, 0, K, ds ? O : S, Z, 0); break; }
    default: { Dropout::DropoutSetting s(p); Dropout d = dflt ? Dropout("o", s) : Dropout("o", s, a); is(d, "o", LayerType::Dropout, a); same(d.setting(), 0, 0, Z, Z, Z, p); break; } }
  ls_reach("end"); }
ENTRY(setters) { LayerDescriptor d("x", LayerType::Dense); is(d, "x", LayerType::Dense, AT::Linear); size_t n = any("n"), f = any("f"), kh = any("kh"), kw = any("kw"), sh = any("sh"), sw = any("sw"), ph = any("ph"), pw = any("pw"); double p = sym::real("p"); LayerSetting s; same(s, 0, 0, S2(0), S2(0), S2(0), 0); s.units(LayerShape(n)); same(s, n, 0, S2(0), S2(0), S2(0), 0); s.n_filters(f); s.kernel_shape(S2(kh, kw)); same(s, n, f, S2(kh, kw), S2(0), S2(0), 0); s.stride(S2(sh, sw)); same(s, n, f, S2(kh, kw), S2(sh, sw), S2(0), 0); s.padding(S2(ph, pw)); s.drop_probability(p); same(s, n, f, S2(kh, kw), S2(sh, sw), S2(ph, pw), p);
  AT a = acts[sym::pick("act", 0, 6)]; d.name("y"); d.type(LayerType::AvgPool); d.activation_type(a); d.setting(s); is(d, "y", LayerType::AvgPool, a); same(d.setting(), n, f, S2(kh, kw), S2(sh, sw), S2(ph, pw), p); LayerDescriptor c = d; c.name("z"); c.type(LayerType::Input); is(d, "y", LayerType::AvgPool, a); is(c, "z", LayerType::Input, a); ls_reach("end"); }
// the oracle: the described layers put together by hand, sizes computed here
struct Hand { Model m; std::vector<LayerDescriptor> d; size_t h, w, c, in; Layer::SharedPtr last; bool trans = false, soft = false; size_t degree = 1, kinks = 0; void kink() { if ((degree > 2 && !(TIER(false, true) && degree == 3 && h * w * c == 1)) || (degree > 1 && kinks)) ls_kill(); kinks++; } Hand(size_t h_, size_t w_, size_t c_) : m("hand"), h(h_), w(w_), c(c_), in(h_ * w_ * c_) { if (w == 1 && c == 1 && sym::flag("flat")) d.push_back(Input("i", h)); else d.push_back(Input("i", S3(h, w, c))); }
  void join(Layer::SharedPtr l) { if (last) m.create_edge(last, l); last = l; }
  void act(AT a) { size_t n = h * w * c; bool tr = a == AT::ELU || a == AT::Softmax || a == AT::TanH || a == AT::Sigmoid; if (tr && (soft || (trans && a == AT::Softmax))) ls_kill(); if (trans && (a == AT::ReLU || a == AT::ELU)) ls_kill(); trans = trans || tr; soft = soft || a == AT::Softmax; if (a == AT::ReLU || a == AT::ELU) kink(); switch (a) { case AT::ReLU: join(m.add_layer<ReluLayer>("a", n)); break; case AT::ELU: join(m.add_layer<EluLayer>("a", n, 1.0)); break; case AT::Softmax: join(m.add_layer<SoftmaxLayer>("a", n)); break; case AT::TanH: join(m.add_layer<TanhLayer>("a", n)); break; case AT::Sigmoid: join(m.add_layer<SigmoidLayer>("a", n)); break; default: join(m.add_layer<LinearLayer>("a", n)); } }
  void dense(size_t n, AT a) { degree++; d.push_back(Dense("d", n, a)); join(m.add_layer<DenseLayer>("d", h * w * c, n)); h = n; w = c = 1; act(a); }
  void conv(size_t f, S2 k, S2 s, S2 p, AT a) { degree++; if (k.height() > h + 2 * p.height() || k.width() > w + 2 * p.width()) ls_kill(); d.push_back(Conv("c", Conv::ConvSetting(f, k, s, p), a)); join(m.add_layer<ConvolutionalLayer>("c", S3(h, w, c), k, f, s, p)); h = (h + 2 * p.height() - k.height()) / s.height() + 1; w = (w + 2 * p.width() - k.width()) / s.width() + 1; c = f; act(a); }
  void pool(bool mx, S2 k, S2 s, AT a) { if (k.height() > h || k.width() > w || (trans && mx)) ls_kill(); if (mx) kink(); if (mx) { d.push_back(MaxPool("p", MaxPool::MaxPoolSetting(k, s), a)); join(m.add_layer<MaxPoolingLayer>("p", S3(h, w, c), k, s)); } else { d.push_back(AvgPool("p", AvgPool::AvgPoolSetting(k, s), a)); join(m.add_layer<AveragePoolingLayer>("p", S3(h, w, c), k, s)); } h = (h - k.height()) / s.height() + 1; w = (w - k.width()) / s.width() + 1; act(a); }
  void drop(double p, AT a) { d.push_back(Dropout("o", Dropout::DropoutSetting(p), a)); join(m.add_layer<DropoutLayer>("o", h * w * c, p)); act(a); }
  // every kind in its first geometry with every activation, every geometry with two of them
  void any(bool wide) { size_t kind = sym::pick("kind", 0, 4), g = kind == 4 ? 0 : sym::pick("geometry", 0, kind == 0 ? 1 : wide ? (kind == 1 ? 5 : 3) : kind == 1 ? 2 : 1); size_t q = g ? 5 + sym::flag("none") : sym::pick("act", 0, wide ? 6 : 4); if (!wide && q == 4) q = 5; AT a = acts[q]; switch (kind) { case 0: dense(g + 1, a); break; case 1: { static const size_t t[][7] = {{1, 2, 1, 1, 1, 0, 0}, {2, 1, 1, 1, 1, 0, 0}, {1, 1, 2, 1, 1, 0, 1}, {2, 1, 1, 2, 1, 1, 0}, {1, 2, 2, 1, 2, 0, 0}, {1, 1, 3, 2, 2, 1, 1}}; const size_t* q = t[g]; conv(q[0], S2(q[1], q[2]), S2(q[3], q[4]), S2(q[5], q[6]), a); break; } case 2: case 3: { static const size_t t[][4] = {{1, 2, 1, 1}, {2, 1, 2, 1}, {1, 1, 1, 2}, {2, 2, 1, 1}}; const size_t* q = t[g]; pool(kind == 2, S2(q[0], q[1]), S2(q[2], q[3]), a); break; } default: drop(0.25, a); } }
  size_t out() const { return h * w * c; }
  template <class N> void check(N& n) { ls_check(n.input_size() == in, "input size"); ls_check(n.output_size() == out(), "output size"); ls_check(m.input_size() == in && m.output_size() == out(), "oracle sizes"); }
  // the same data set through the network and through the oracle
  template <class N> void predict(N& n, size_t entries) { V x = sym::reals("x", entries * in), old = x; Dataset<double> data(x, in); auto r = n.predict(data); ls_check(r.size() == entries && r.feature_size() == out() && r.data().size() == entries * out(), "one row of outputs per entry"); V e; for (size_t i = 0; i < entries; i++) { V xi(x.begin() + (long)(i * in), x.begin() + (long)((i + 1) * in)); const V& y = m.predict(xi); e.insert(e.end(), y.begin(), y.end()); } for (size_t i = 0; i < entries; i++) { V ri = r.entry(i), ei(e.begin() + (long)(i * out()), e.begin() + (long)((i + 1) * out())); sym::check_eq(ri, ei, "prediction of the described network"); } sym::check_eq(data.data(), old, "data unchanged"); } };
static Hand image() { switch (sym::pick("input", 0, 5)) { case 0: return Hand(1, 1, 1); case 1: return Hand(2, 1, 1); case 2: return Hand(1, 2, 1); case 3: return Hand(2, 2, 1); case 4: return Hand(1, 3, 2); default: return Hand(2, 1, 2); } }
static void built(Hand& o, size_t entries) { Net n("net"); for (auto& d : o.d) n.add(d); o.check(n); Dataset<double> none; n.fit(none, OptimizerType::GRADIENT_DESCENT, 0, 1, 0.5, 7); o.m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, 7); o.check(n); o.predict(n, entries); ls_reach("end"); }
ENTRY(one) { Hand o = image(); o.any(true); built(o, o.in > 1 ? 1 : 2); }
ENTRY(chain) { Hand o = sym::flag("image") ? (sym::flag("deep") ? Hand(1, 3, 2) : Hand(2, 2, 1)) : Hand(2, 1, 1); size_t k = TIER(2, 3); for (size_t i = 0; i < k; i++) o.any(false); built(o, 1); }
// evaluation: any label is the prediction plus an arbitrary error (mean squared error) or any one-hot vector (cross entropy)
static Hand small(size_t k, AT last) { if (k == 3) { Hand o(2, 1, 1); o.drop(0.0, last); return o; } Hand o(k == 1 ? 2 : 1, 1, 1); if (k == 2) o.dense(1, AT::TanH); o.dense(k == 0 ? 1 : 2, last); return o; }
struct Rows { V data; size_t in, out; std::vector<V> x, t; std::set<size_t> idx; Rows(size_t i, size_t o) : in(i), out(o) { size_t w = sym::pick("labels", 0, 2); for (size_t k = 0; k < out; k++) idx.insert(w == 0 ? in + k : w == 1 ? k : (k ? in + k : 0)); }
  void add(const V& xi, const V& ti) { x.push_back(xi); t.push_back(ti); size_t a = 0, b = 0; for (size_t k = 0; k < in + out; k++) data.push_back(idx.count(k) ? ti[b++] : xi[a++]); }
  Dataset<double> set() { return Dataset<double>(data, in + out, 1, idx); } };
template <class R> static void metrics(const R& r, double loss, double acc) { ls_check_eq(r.loss, loss, "mean loss"); ls_check_eq(r.accuracy, acc, "accuracy"); ls_check_eq(r.accuracy_perc, 100 * acc, "accuracy in percent"); ls_check_eq(r.error_rate, 1 - acc, "error rate"); ls_check_eq(r.error_rate_perc, 100 * (1 - acc), "error rate in percent"); }
template <LossType LT> static void evaluate(Hand& o, Dataset<double>& d, double loss, double acc, bool dynamic) { if (dynamic) { DynamicFeedforwardNeuralNetwork<ParallelizationLevel::SEQUENTIAL, double> n(o.d, "dyn"); ls_check(sym::throws_as<std::runtime_error>([&] { n.evaluate(d); }), "evaluation needs compile"); ls_check(sym::throws_as<std::runtime_error>([&] { n.fit(d); }), "training needs compile"); n.compile(LT, OptimizerType::GRADIENT_DESCENT, InitType::XAVIER_INIT); n.fit(d, 0, 1, 0.5, 7); auto r = n.evaluate(d); ls_check(r.size() == 1, "one framework"); metrics(r[Framework::EDGE_LEARNING], loss, acc); metrics(n.evaluate(Framework::EDGE_LEARNING, d), loss, acc); }
  else { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, InitType::XAVIER_INIT, ParallelizationLevel::SEQUENTIAL, double> n(o.d, "net"); n.fit(d, OptimizerType::GRADIENT_DESCENT, 0, 1, 0.5, 7); auto x = d.inputs(); n.predict(x); metrics(n.evaluate(d), loss, acc); metrics(n.evaluate(d), loss, acc); } ls_reach("end"); }
ENTRY(evaluate) { bool cce = sym::flag("cross entropy"), dynamic = sym::flag("dynamic"); Hand o = small(cce ? 3 : sym::pick("net", 0, 2), cce ? AT::Softmax : AT::Linear); o.m.init(Model::InitializationFunction::XAVIER, Model::ProbabilityDensityFunction::NORMAL, 7); Rows rows(o.in, o.out()); size_t n = sym::pick("entries", 1, TIER(2, 3)); if (n > 1 && ((cce && dynamic) || (!cce && o.d.size() > 2))) ls_kill(); double loss = 0; size_t ok = 0;
  for (size_t i = 0; i < n; i++) { V x = sym::reals("x", o.in), y = o.m.predict(x), t; if (cce) { size_t hot = sym::pick("class", 0, 1); ls_assume(y[0] > 0.001 && y[1] > 0.001 && y[0] != y[1]); t = V(2, 0.0); t[hot] = 1; loss -= std::log(y[hot]); if (y[hot] > y[1 - hot]) { ls_assume(hot < 2); ok++; } } else { V e = sym::reals("err", o.out()); double l = 0; for (size_t k = 0; k < e.size(); k++) { t.push_back(y[k] + e[k]); l += e[k] * e[k]; } l /= (double)e.size(); loss += l; if (l <= 0.1) { ls_assume(n < 9); ok++; } } rows.add(x, t); }
  Dataset<double> d = rows.set(); if (cce) evaluate<LossType::CCE>(o, d, loss / (double)n, (double)ok / (double)n, dynamic); else evaluate<LossType::MSE>(o, d, loss / (double)n, (double)ok / (double)n, dynamic); }
// training: per epoch and batch one optimiser step with the batch's accumulated gradients, from the initial parameters of the seed
template <LossType LT, class Loss, class Opt, OptimizerType OT> static void train(Hand& o, size_t entries, size_t batch, size_t epochs, double lr, bool dynamic) { Rows rows(o.in, o.out()); auto loss = o.m.add_loss<Loss>("l", o.out(), batch); o.m.create_loss_edge(o.last, loss); o.m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, 7); Opt opt(lr);
  for (size_t e = 0; e < epochs; e++) for (size_t i = 0; i < entries; i += batch) { for (size_t b = i; b < entries && b < i + batch; b++) { if (!e) { V x, y, t; if (epochs > 1) { x = {b ? -0.5 : 2.0}; t = {b ? 1.0 : 0.75}; } else { x = sym::reals("x", o.in); y = o.m.predict(x); V d = sym::reals("err", o.out()); for (size_t j = 0; j < d.size(); j++) t.push_back(y[j] + d[j]); } rows.add(x, t); } o.m.step(rows.x[b], rows.t[b]); } o.m.train(opt); }
  Dataset<double> d = rows.set(); V q = sym::reals("q", o.in); Dataset<double> p(q, o.in); V y, want = o.m.predict(q); if (dynamic) { DynamicFeedforwardNeuralNetwork<ParallelizationLevel::SEQUENTIAL, double> n(o.d, "dyn"); n.compile(LT, OT, InitType::AUTO); n.fit(d, epochs, batch, lr, 7); y = n.predict(Framework::EDGE_LEARNING, p).data(); } else { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, InitType::AUTO, ParallelizationLevel::SEQUENTIAL, double> n(o.d, "net"); n.fit(d, OT, epochs, batch, lr, 7); y = n.predict(p).data(); } sym::check_eq(y, want, "prediction after training"); sym::check_eq(d.data(), rows.data, "training data unchanged"); ls_reach("end"); }
ENTRY(train) { size_t k = sym::pick("net", 0, 2); Hand o = small(k, AT::Linear); size_t n = sym::pick("entries", 1, TIER(2, 3)), b = sym::pick("batch", 1, 2), e = k || n > 2 ? 1 : sym::pick("epochs", 1, 2); if (k == 2 && n > 1) ls_kill(); bool dyn = sym::flag("dynamic"); if (sym::flag("adam")) { if (n > 1 || k || e > 1) ls_kill(); train<LossType::MSE, MeanSquaredLossLayer, AdamOptimizer, OptimizerType::ADAM>(o, n, b, e, 0.25, dyn); } else train<LossType::MSE, MeanSquaredLossLayer, GradientDescentOptimizer, OptimizerType::GRADIENT_DESCENT>(o, n, b, e, 0.25, dyn); }
// a second training starts over: it gives the network a fresh one trained the same way is
ENTRY(refit) { size_t k = 0, n = sym::pick("entries", 1, 2), b1 = sym::pick("first batch", 1, 2), b2 = sym::pick("batch", 1, 2), e1 = sym::pick("first epochs", 0, 1); bool ev = sym::flag("predict between"); if (n > 1 && (e1 || ev)) ls_kill(); Hand o = small(k, AT::Linear); Rows rows(o.in, o.out()); for (size_t i = 0; i < n; i++) { V x; for (size_t j = 0; j < o.in; j++) x.push_back((double)(i + 1) * (j ? -0.5 : 1.25)); V t; if (n == 1 && !k) t = sym::reals("t", o.out()); else for (size_t j = 0; j < o.out(); j++) t.push_back(i ? 0.75 : -2.5); rows.add(x, t); } Dataset<double> d = rows.set(); V q = sym::reals("q", o.in); Dataset<double> p(q, o.in);
  typedef FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::MSE, InitType::AUTO, ParallelizationLevel::SEQUENTIAL, double> N; N x(o.d, "again"), y(o.d, "fresh"); x.fit(d, OptimizerType::GRADIENT_DESCENT, e1, b1, 0.5, 3); if (ev) x.predict(p); x.fit(d, OptimizerType::GRADIENT_DESCENT, 1, b2, 0.25, 7); y.fit(d, OptimizerType::GRADIENT_DESCENT, 1, b2, 0.25, 7); sym::check_eq(x.predict(p).data(), y.predict(p).data(), "prediction after training again"); ls_reach("end"); }
ENTRY(errors) { V one(1, 1.0); Dataset<double> d(one, 1); Net n("n"); n.add(Dense("d", 1)); ls_check(sym::throws_as<std::runtime_error>([&] { n.add(Input("i", 1)); }), "the input comes first"); Net m("m"); m.add(Input("i", 1)); ls_check(sym::throws_as<std::runtime_error>([&] { m.fit(d); }), "a network without layers cannot be trained"); ls_check(sym::throws_as<std::runtime_error>([&] { m.add(Input("j", 1)); }), "one input"); NeuralNetworkDescriptor bad{Input("i", 1), Dense("d", 1), Input("j", 1)}; ls_check(sym::throws_as<std::runtime_error>([&] { CompileFeedforwardNeuralNetwork<> z(bad, "z"); }), "an input behind a layer"); DynamicFeedforwardNeuralNetwork<> y(bad, "y"); ls_check(sym::throws_as<std::runtime_error>([&] { y.compile(); }), "an input behind a layer"); ls_reach("end"); }
ENTRY(large) { bool image = sym::flag("image"); Hand o = image ? Hand(6, 5, 3) : Hand(7, 1, 1); if (image) { o.conv(4, S2(3, 2), S2(2, 1), S2(1, 0), AT::Linear); o.pool(false, S2(2, 2), S2(1, 2), AT::Linear); o.dense(3, AT::TanH); } else { o.dense(9, AT::TanH); o.drop(0.5, AT::Linear); o.dense(5, AT::Linear); } built(o, image ? 1 : 3); }
// the per-framework model behind the dynamic network: every loss and initialisation, sizes before and after compile
ENTRY(sub) { bool he = sym::flag("he"), xa = !he && sym::flag("xavier"), cce = sym::flag("cross entropy"), late = sym::flag("compiled by the query"); if (late && (he || xa || cce)) ls_kill(); InitType it = he ? InitType::HE_INIT : xa ? InitType::XAVIER_INIT : InitType::AUTO; Hand o(2, 1, 1); o.dense(3, AT::ReLU); o.dense(1, AT::Linear); typedef DynamicFeedforwardNeuralNetwork<ParallelizationLevel::SEQUENTIAL, double> D; V none; Dataset<double> z; V x = sym::reals("x", 2); Dataset<double> p(x, 2);
  D::SubModelType<Framework::EDGE_LEARNING> n(o.d, "sub"); if (late) { if (sym::flag("input first")) ls_check(n.input_size() == 2, "input size"); ls_check(n.output_size() == 1 && n.input_size() == 2, "sizes before compile"); auto r = n.predict(p); ls_check(r.size() == 1 && r.feature_size() == 1, "predicts uncompiled"); D u(o.d, "dyn"); auto q = u.predict(p); ls_check(q.size() == 1 && q[Framework::EDGE_LEARNING].size() == 1 && q[Framework::EDGE_LEARNING].feature_size() == 1, "predicts uncompiled"); ls_reach("end"); return; }
  n.compile(cce ? LossType::CCE : LossType::MSE, OptimizerType::GRADIENT_DESCENT, it); o.check(n); n.fit(z, 0, 1, 0.5, 7); o.check(n);
  o.m.init(he ? Model::InitializationFunction::KAIMING : xa ? Model::InitializationFunction::XAVIER : Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, 7); o.predict(n, 1);
  D d(o.d, "dyn"); d.compile(Framework::EDGE_LEARNING, cce ? LossType::CCE : LossType::MSE, OptimizerType::GRADIENT_DESCENT, it); d.fit(Framework::EDGE_LEARNING, z, 0, 1, 0.5, 7); V y = d.predict(p)[Framework::EDGE_LEARNING].data(), w = n.predict(p).data(); sym::check_eq(y, w, "one model per framework"); ls_reach("end"); }
