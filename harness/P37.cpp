// P37: random helpers and parameter initialisation
#include "sym.h"
#include "all_dnn.inc"
//@ bound ranges: arbitrary real ends in [-100,100], integer ends in [-6,6] (thorough [-20,20]); unique sequences of up to 4 (thorough 5) members from an arbitrary start; layers: dense 1..3 x 1..2 (thorough 4 x 3), convolutions of 2x2..3x3 images, recurrent cells of 1..2 inputs, states and outputs; models of up to three layers; the generator's draws are symbolic
//@ assume a normal draw is an arbitrary real, an engine draw an arbitrary word, a function of seed and position; square roots are exact
//@parallel 2
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath; using I = Layer::InitializationFunction; using P = Layer::ProbabilityDensityFunction;
ENTRY(rand_real) { double c = sym::real("center", -100, 100), d = sym::real("reach", 0, 100), a = c - d, b = c + d, top = (double)std::numeric_limits<RneType::result_type>::max(); size_t seed = sym::pick("seed", 1, 2); RneType g(seed), h(seed); double r = L::rand<double>(a, b, g), u = (double)h(); ls_check_eq(r * top, a * top + (b - a) * u, "a random value is the linear image of the draw"); ls_check_le(c - d, r, "not below the range"); ls_check_le(r, c + d, "not above the range"); ls_reach("end"); }
template <class T> static void ints(long lo, long hi) { long a = (long)sym::pick("from", 0, (size_t)(hi - lo)) + lo, b = (long)sym::pick("to", 0, (size_t)(hi - lo)) + lo; if (a > b) ls_kill(); RneType g(3); for (int k = 0; k < 2; k++) { T r = L::rand<T>((T)a, (T)b, g); ls_check((long)r >= a, "not below the range"); ls_check((long)r <= b, "not above the range"); } ls_reach("end"); }
ENTRY(rand_int) { ints<int>(TIER(-3, -20), TIER(4, 20)); }
ENTRY(rand_size) { ints<std::size_t>(0, TIER(6, 20)); }
// every value of the range occurs: the ends are hit by the extreme draws
ENTRY(uniform) { double c = sym::real("center", -100, 100), d = sym::real("delta", 0, 100); RneType g(5), h(5); auto f = sym::flag("selector") ? L::pdf<double>(c, d, P::UNIFORM) : L::uniform_pdf<double>(c, d); double top = (double)std::numeric_limits<RneType::result_type>::max(); for (int k = 0; k < 2; k++) { double r = f(g), u = (double)h(); ls_check_eq(r * 2 * top, (2 * c - d) * top + 2 * d * u, "a uniform value is the linear image of the draw"); ls_check_le(2 * c - d, 2 * r, "not below the range"); ls_check_le(2 * r, 2 * c + d, "not above the range"); } ls_reach("end"); }
ENTRY(normal) { double m = sym::real("mean"), s = sym::real("deviation", 0, 1000); RneType g(5), h(5); auto f = sym::flag("selector") ? L::pdf<double>(m, s, P::NORMAL) : L::normal_pdf<double>(m, s); std::normal_distribution<double> z(0, 1); for (int k = 0; k < 2; k++) ls_check_eq(f(g), m + s * z(h), "a normal value is the mean plus deviation times the draw"); ls_reach("end"); }
ENTRY(sequence) { size_t n = sym::pick("n", 0, TIER(4, 5)); uint64_t from = sym::range("from", 0, 1000000); RneType g(7), h(7); auto s = L::unique_rand_sequence(from, from + n, g); ls_check(s.size() == n, "length"); for (size_t v = 0; v < n; v++) { size_t c = 0; for (size_t x : s) if (x == from + v) c++; ls_check(c == 1, "every member occurs exactly once"); } auto t = L::unique_rand_sequence(from, from + n, h); ls_check(t == s, "the seed determines the sequence"); ls_reach("end"); }
ENTRY(variance) { size_t n = sym::pick("n", 1, TIER(12, 40)); bool k = sym::flag("kaiming"); double v = sym::flag("selector") ? std::get<1>(L::initialization<double>(k ? I::KAIMING : I::XAVIER, n)) : k ? L::kaiming_initialization_variance<double>(n) : L::xavier_initialization_variance<double>(n); ls_check_le(0, v, "deviation positive"); ls_check_eq(v * v * (double)n, k ? 2 : 1, "deviation by the fan-in"); ls_check_eq(std::get<0>(L::initialization<double>(k ? I::KAIMING : I::XAVIER, n)), 0, "mean"); ls_check_eq(std::get<1>(k ? L::kaiming_initialization<double>(n) : L::xavier_initialization<double>(n)), v, "pair"); ls_check_eq(std::get<0>(k ? L::kaiming_initialization<double>(n) : L::xavier_initialization<double>(n)), 0, "pair"); ls_reach("end"); }
ENTRY(index_of) { size_t n = sym::pick("n", 0, TIER(3, 5)); std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back((int)sym::range("v", 0, 1000)); int e = (int)sym::range("e", 0, 1000); auto r = L::index_of(v, e); if (r == -1) { for (int x : v) ls_check(x != e, "not found although present"); } else { ls_check(r >= 0 && (size_t)r < n && v[(size_t)r] == e, "position of an equal element"); for (long i = 0; i < r; i++) ls_check(v[(size_t)i] != e, "the first position"); } ls_reach("end"); }
// the k-th draw of the generator, scaled: v * v * n = factor * d * d with the sign of the draw
struct Draws { RneType g; P p; std::normal_distribution<double> z{0, 1}; Draws(size_t seed, P q) : g(seed), p(q) {} double next() { if (p == P::NORMAL) return z(g); return (double)g() / (double)std::numeric_limits<RneType::result_type>::max() - 0.5; } };
static void weight(double w, double d, double dev) { ls_check_eq(w, dev * d, "a weight is the deviation of its fan-in times its own draw"); }
static double dev(I k, size_t n) { return std::sqrt((k == I::KAIMING ? 2.0 : 1.0) / (double)n); }
static void params(Layer& l, size_t weights, size_t fan, I k, P p, size_t seed) { Draws d(seed, p); for (size_t i = 0; i < l.param_count(); i++) if (i < weights) weight(l.param(i), d.next(), dev(k, fan)); else ls_check_eq(l.param(i), 0.01, "biases start at the small constant"); }
static I kind() { return sym::flag("kaiming") ? I::KAIMING : I::XAVIER; }
static P law() { return sym::flag("uniform") ? P::UNIFORM : P::NORMAL; }
ENTRY(dense) { size_t in = sym::pick("in", 1, TIER(3, 4)), out = sym::pick("out", 1, TIER(2, 3)), seed = sym::pick("seed", 1, 2); I k = kind(); P p = law(); DenseLayer l("d", in, out); for (size_t i = 0; i < l.param_count(); i++) l.param(i) = 7; for (int r = 0; r < 2; r++) { l.init(k, p, RneType(seed)); params(l, in * out, in, k, p, seed); } ls_reach("end"); }
ENTRY(conv) { size_t s = sym::pick("side", 2, TIER(2, 3)), c = sym::pick("channels", 1, 2), f = sym::pick("filters", 1, 2), seed = sym::pick("seed", 1, 2); I k = kind(); P p = law(); ConvolutionalLayer l("c", L::Shape3d(s, s, c), L::Shape2d(2, 2), f); l.init(k, p, RneType(seed)); ls_check(l.param_count() == 4 * c * f + f, "number of parameters"); params(l, 4 * c * f, s * s * c, k, p, seed); ls_reach("end"); }
ENTRY(recurrent) { size_t in = sym::pick("in", 1, 2), out = sym::pick("out", 1, 2), hid = sym::pick("hidden", 1, 2), seed = sym::pick("seed", 1, 2); I k = kind(); P p = law(); RecurrentLayer l("r", in, out, hid, 1); l.init(k, p, RneType(seed)); Draws d(seed, p); size_t q = 0, e = l.param_count(); ls_check(e == in * hid + hid * hid + hid * out + hid + out, "number of parameters"); for (size_t i = 0; i < in * hid; i++) weight(l.param(q++), d.next(), dev(k, in)); for (size_t i = 0; i < hid * hid; i++) weight(l.param(q++), d.next(), dev(k, hid)); for (size_t i = 0; i < hid; i++) ls_check_eq(l.param(q++), 0.01, "biases of the state start at the small constant"); for (size_t i = 0; i < hid * out; i++) weight(l.param(q++), d.next(), dev(k, hid)); for (size_t i = 0; i < out; i++) ls_check_eq(l.param(q++), 0.01, "biases of the output start at the small constant"); ls_reach("end"); }
// a model initialises each of its layers by the requested scheme; AUTO is Kaiming in front of a ReLU and Xavier elsewhere
ENTRY(model) { size_t follow = sym::pick("follow", 0, 3), seed = sym::pick("seed", 0, 2); auto mode = (Model::InitializationFunction)sym::pick("init", 0, 2); bool uni = sym::flag("uniform"); P p = uni ? P::UNIFORM : P::NORMAL; auto mp = p;
  auto build = [&](std::vector<Layer::SharedPtr>& l) { Model m("m"); auto join = [&](Layer::SharedPtr q) { if (!l.empty()) m.create_edge(l.back(), q); l.push_back(q); }; join(m.add_layer<DenseLayer>("a", SizeType(2), SizeType(1))); if (follow == 1) join(m.add_layer<ReluLayer>("r", SizeType(1))); if (follow == 2) join(m.add_layer<TanhLayer>("t", SizeType(1))); if (follow == 3) join(m.add_layer<EluLayer>("e", SizeType(1), 1.0)); join(m.add_layer<DenseLayer>("b", SizeType(1), SizeType(2))); join(m.add_layer<ReluLayer>("s", SizeType(2))); auto loss = m.add_loss<MeanSquaredLossLayer>("l", SizeType(2), SizeType(1)); m.create_loss_edge(l.back(), loss); return m; };
  std::vector<Layer::SharedPtr> l, k; Model a = build(l), b = build(k); auto used = a.init(mode, mp, seed); if (seed) ls_check(used == seed, "the seed that was given is the seed used"); auto again = b.init(mode, mp, used); ls_check(again == used, "the seed that was given is the seed used");
  auto scheme = [&](bool relu) { if (mode == Model::InitializationFunction::KAIMING) return I::KAIMING; if (mode == Model::InitializationFunction::XAVIER) return I::XAVIER; return relu ? I::KAIMING : I::XAVIER; };
  for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l[i]->param_count(); j++) ls_check_eq(l[i]->param(j), k[i]->param(j), "the reported seed reproduces the parameters");
  params(*l.front(), 2, 2, scheme(follow == 1), p, used); params(*l[l.size() - 2], 2, 1, scheme(true), p, used); ls_reach("end"); }
