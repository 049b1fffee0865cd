// P36: parallel kernels and parallel training
#include "sym.h"
#include "all_mw.inc"
//@ bound (large) kernels of 9 to 7, 17 to 3, 2 to 18 and 8 to 8 values with concurrency 1..4
//@ bound kernels: input and output sizes 1..3 (thorough 1..5), all values and previous gradients symbolic reals; training: chains of 1..3 layers (dense, tanh, ReLU) with 1..3 entries (thorough 4), batch sizes 1..3, task concurrency 1..3, 1..2 epochs (several optimizer steps in a row: fixed data and bias, one symbolic weight, gradient descent or an optimizer with momentum), Adam for one step; every enqueued task is a thread of its own between its enqueueing and its join
//@ assume the stand-in for the BetterThreads library runs each task atomically while every pair of unordered conflicting memory accesses is reported: without one every schedule gives the same result
//@ H_entry t=200 T=850 a=1 j=4
//@ H_batch t=200 T=850 a=1 j=4
//@parallel 3
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath; using PL = ParallelizationLevel;
static V reals(const char* n, size_t k) { return sym::reals(n, k); }
ENTRY(dense) { size_t m = TIER(3, 5), in = sym::pick("in", 1, m), out = sym::pick("out", 1, m); BetterThreads::TaskManager::instance().ls_set_maximum(sym::pick("concurrency", 1, 2)); V x = reals("x", in), w = reals("w", in * out), b = reals("b", out), d = reals("old", out), x0 = x, w0 = w, b0 = b, e; for (size_t i = 0; i < out; i++) { double s = b[i]; for (size_t j = 0; j < in; j++) s += w[i * in + j] * x[j]; e.push_back(s); } ls_check(L::dense_thread_opt(d.data(), x.data(), w.data(), b.data(), in, out) == d.data(), "returns its destination"); sym::check_eq(d, e, "parallel dense kernel"); sym::check_eq(x, x0, "input unchanged"); sym::check_eq(w, w0, "weights unchanged"); sym::check_eq(b, b0, "biases unchanged"); V s = reals("old", out); L::dense(s.data(), x.data(), w.data(), b.data(), in, out); sym::check_eq(s, d, "sequential kernel"); ls_reach("end"); }
ENTRY(dense_1) { size_t m = TIER(3, 4), in = sym::pick("in", 1, m), out = sym::pick("out", 1, m); V x = reals("x", in), w = reals("w", in * out), g = reals("g", out), ig = reals("old", in), wg = reals("wg", in * out), bg = reals("bg", out), si = reals("old", in), sw = wg, sb = bg, x0 = x, w0 = w, g0 = g, ei(in, 0.0), ew = wg, eb = bg; for (size_t i = 0; i < out; i++) { eb[i] += g[i]; for (size_t j = 0; j < in; j++) { ew[i * in + j] += g[i] * x[j]; ei[j] += g[i] * w[i * in + j]; } } ls_check(L::dense_1_thread_opt(ig.data(), wg.data(), bg.data(), g.data(), x.data(), w.data(), in, out) == ig.data(), "returns its destination"); sym::check_eq(ig, ei, "input gradients"); sym::check_eq(wg, ew, "weight gradients"); sym::check_eq(bg, eb, "bias gradients"); L::dense_1(si.data(), sw.data(), sb.data(), g.data(), x.data(), w.data(), in, out); sym::check_eq(si, ig, "sequential kernel"); sym::check_eq(sw, wg, "sequential kernel"); sym::check_eq(sb, bg, "sequential kernel"); sym::check_eq(x, x0, "input unchanged"); sym::check_eq(w, w0, "weights unchanged"); sym::check_eq(g, g0, "gradients unchanged"); ls_reach("end"); }
struct Net { Model m; std::vector<Layer::SharedPtr> l; size_t in, out; std::shared_ptr<MeanSquaredLossLayer> loss; Net(size_t kind, size_t batch, const V& w) : m("m") { auto join = [&](Layer::SharedPtr p) { if (!l.empty()) m.create_edge(l.back(), p); l.push_back(p); }; in = kind == 1 ? 2 : 1; out = kind == 2 ? 2 : 1; join(m.add_layer<DenseLayer>("a", in, out)); if (kind == 3) { join(m.add_layer<TanhLayer>("t", SizeType(1))); join(m.add_layer<DenseLayer>("b", SizeType(1), SizeType(1))); } if (kind == 4) join(m.add_layer<ReluLayer>("r", SizeType(1))); loss = m.add_loss<MeanSquaredLossLayer>("l", out, batch, 0.5); m.create_loss_edge(l.back(), loss); size_t k = 0; for (auto& p : l) for (size_t i = 0; i < p->param_count(); i++) p->param(i) = w[k++]; }
  V params() { V p; for (auto& q : l) for (size_t i = 0; i < q->param_count(); i++) p.push_back(q->param(i)); return p; } V grads() { V p; for (auto& q : l) for (size_t i = 0; i < q->param_count(); i++) p.push_back(q->gradient(i)); return p; } };
static size_t count(size_t kind) { static const size_t n[] = {2, 3, 4, 4, 2}; return n[kind]; }
// any target is the initial prediction plus an arbitrary error, so that the loss is a simple term
struct Data { V rows; std::vector<V> x, t; Dataset<double> set; Data(Net& n, size_t entries, bool fixed) { std::set<size_t> idx; for (size_t i = 0; i < n.out; i++) idx.insert(n.in + i); for (size_t i = 0; i < entries; i++) { V a, b; if (fixed) { a = {i == 0 ? 2.0 : i == 1 ? -0.5 : 1.5}; b = {i == 0 ? 0.75 : i == 1 ? 1.0 : -0.25}; } else { a = reals("x", n.in); V y = n.m.predict(a), d = reals("err", n.out); for (size_t j = 0; j < n.out; j++) b.push_back(y[j] + d[j]); } x.push_back(a); t.push_back(b); rows.insert(rows.end(), a.begin(), a.end()); rows.insert(rows.end(), b.begin(), b.end()); } set = Dataset<double>(rows, n.in + n.out, 1, idx); } };
template <PL level, class O> static void check(Net& n, Net& ref, Data& d, O& opt, size_t epochs, size_t batch) { Training<level, double>::run(n.m, d.set, opt, epochs, batch); V p = n.params(), q = ref.params(), g = n.grads(); ls_check(p.size() == q.size(), "number of parameters"); for (size_t i = 0; i < p.size(); i++) ls_check_eq(p[i], q[i], "parallel training moves the parameters like sequential training"); for (double v : g) ls_check_eq(v, 0, "no gradient is left behind"); sym::check_eq(d.set.data(), d.rows, "training data unchanged"); ls_obsr("p", p[0]); ls_reach("end"); }
template <class O> static void entries(Net& n, Net& r, Data& d, O a, O b, size_t entries, size_t batch, size_t epochs, bool seq) { for (size_t e = 0; e < epochs; e++) for (size_t i = 0; i < entries; i += batch) { for (size_t k = i; k < entries && k < i + batch; k++) r.m.step(d.x[k], d.t[k]); r.m.train(b); } if (seq) check<PL::SEQUENTIAL>(n, r, d, a, epochs, batch); else check<PL::THREAD_PARALLELISM_ON_DATA_ENTRY>(n, r, d, a, epochs, batch); }
// an optimizer with a memory, linear in the gradients
struct Ball : Optimizer { std::map<double*, V> v; void _train(Layer& from, Layer& to) override { size_t n = to.param_count(); if (!n) return; V& q = v[&to.param(0)]; q.resize(n); for (size_t i = 0; i < n; i++) { q[i] = 0.5 * q[i] + from.gradient(i); to.param(i) -= 0.25 * q[i]; from.gradient(i) = 0; } } };
// each round: the gradients of up to concurrency batches at the parameters the round starts from, applied batch by batch
template <class O> static void batches(Net& n, Net& r, Data& d, O a, O b, size_t entries, size_t batch, size_t epochs, size_t conc) { for (size_t e = 0; e < epochs; e++) for (size_t i = 0; i < entries;) { std::vector<V> gs; for (size_t c = 0; c < conc && i < entries; c++) { for (size_t k = 0; k < batch && i < entries; k++, i++) r.m.step(d.x[i], d.t[i]); gs.push_back(r.grads()); for (auto& q : r.l) for (size_t j = 0; j < q->param_count(); j++) q->gradient(j) = 0; } for (auto& g : gs) { size_t k = 0; for (auto& q : r.l) for (size_t j = 0; j < q->param_count(); j++) q->gradient(j) = g[k++]; r.m.train(b); } } check<PL::THREAD_PARALLELISM_ON_DATA_BATCH>(n, r, d, a, epochs, batch); }
static void run(bool byEntry) { size_t kind = sym::pick("net", 0, 4), epochs = kind == 0 ? sym::pick("epochs", 1, 2) : 1, N = sym::pick("entries", 1, kind > 1 ? 2 : TIER(3, 4)), B = sym::pick("batch", 1, byEntry ? 3 : 2), C = sym::pick("concurrency", 1, byEntry ? 2 : 3); if (B > N) ls_kill(); bool adam = sym::flag("adam"), seq = byEntry && sym::flag("sequential"); bool many = byEntry ? N > B : N > B * C; bool fixed = epochs > 1 || many; if (fixed && kind) ls_kill(); if (adam && !fixed && (kind || (!byEntry && N > B))) ls_kill(); V w = reals("w", count(kind)); if (fixed) w[1] = 0.25; BetterThreads::TaskManager::instance().ls_set_maximum(C); Net n(kind, B, w), r(kind, B, w); if (kind == 4) w = V{1}; Data d(n, N, fixed);
  if (byEntry) { if (adam && fixed) entries(n, r, d, Ball(), Ball(), N, B, epochs, seq); else if (adam) entries(n, r, d, AdamOptimizer(0.25), AdamOptimizer(0.25), N, B, epochs, seq); else entries(n, r, d, GradientDescentOptimizer(0.25), GradientDescentOptimizer(0.25), N, B, epochs, seq); } else { if (adam && fixed) batches(n, r, d, Ball(), Ball(), N, B, epochs, C); else if (adam) batches(n, r, d, AdamOptimizer(0.25), AdamOptimizer(0.25), N, B, epochs, C); else batches(n, r, d, GradientDescentOptimizer(0.25), GradientDescentOptimizer(0.25), N, B, epochs, C); } }
ENTRY(entry) { run(true); }
ENTRY(batch) { run(false); }
// the parallel levels of a described network
template <PL level> static V fitted(const NeuralNetworkDescriptor& d, Dataset<double>& data, Dataset<double>& q, size_t batch) { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::MSE, InitType::AUTO, level, double> n(d, "n"); n.fit(data, OptimizerType::GRADIENT_DESCENT, 1, batch, 0.5, 7); return n.predict(q).data(); }
ENTRY(network) { NeuralNetworkDescriptor d{Input("i", 1), Dense("d", 1, sym::flag("tanh") ? ActivationType::TanH : ActivationType::Linear)}; size_t N = sym::pick("entries", 1, 2); V rows; for (size_t i = 0; i < N; i++) { rows.push_back(i ? -0.5 : 2); rows.push_back(i ? 1 : 0.25); } V x = reals("q", 1); Dataset<double> data(rows, 2, 1, {1}), q(x, 1); V a = fitted<PL::SEQUENTIAL>(d, data, q, N), b = fitted<PL::THREAD_PARALLELISM_ON_DATA_ENTRY>(d, data, q, N), c = fitted<PL::THREAD_PARALLELISM_ON_DATA_BATCH>(d, data, q, N); sym::check_eq(b, a, "training by entries gives the sequential network"); sym::check_eq(c, a, "training one batch in parallel gives the sequential network"); ls_reach("end"); }
ENTRY(large) { static const size_t s[4][2] = {{9, 7}, {17, 3}, {2, 18}, {8, 8}}; size_t k = sym::pick("size", 0, 3), in = s[k][0], out = s[k][1]; BetterThreads::TaskManager::instance().ls_set_maximum(sym::pick("concurrency", 1, 4)); V x = reals("x", in), w = reals("w", in * out), b = reals("b", out), d = reals("old", out), e; for (size_t i = 0; i < out; i++) { double q = b[i]; for (size_t j = 0; j < in; j++) q += w[i * in + j] * x[j]; e.push_back(q); } L::dense_thread_opt(d.data(), x.data(), w.data(), b.data(), in, out); sym::check_eq(d, e, "parallel dense kernel"); V g = reals("g", out), ig = reals("old", in), wg = reals("wg", in * out), bg = reals("bg", out), ei(in, 0.0), ew = wg, eb = bg; for (size_t i = 0; i < out; i++) { eb[i] += g[i]; for (size_t j = 0; j < in; j++) { ew[i * in + j] += g[i] * x[j]; ei[j] += g[i] * w[i * in + j]; } } L::dense_1_thread_opt(ig.data(), wg.data(), bg.data(), g.data(), x.data(), w.data(), in, out); sym::check_eq(ig, ei, "input gradients"); sym::check_eq(wg, ew, "weight gradients"); sym::check_eq(bg, eb, "bias gradients"); ls_reach("end"); }
