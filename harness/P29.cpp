// P29: dropout
#include "sym.h"
#include "all_dnn.inc"
//@ bound (large) vectors of 6 (thorough 9) values at drop probability 0.5; layers of 1..3 values given another input shape
//@ bound vectors of 1..2 (quick) / 1..3 (thorough) symbolic reals, every outcome of the generator, drop probabilities 0, 0.1, 0.5, 1; histories of 2 (quick) / 3 (thorough) passes, each a training pass with its back-propagation, optionally with a prediction between them or before; dropout alone and between two layers of a model
//@ assume each draw of the generator is an arbitrary 64-bit value
using namespace EdgeLearning; using V = std::vector<double>;
static const double ps[4] = {0.1, 0, 0.5, 1};
ENTRY(layer) { size_t n = sym::pick("n", 1, TIER(2, 3)); double p = ps[sym::pick("p", 0, 3)], scale = p == 1 ? 1 : 1 / (1 - p); DropoutLayer l("d", n, p, RneType(7)); RneType ref(7); ls_check(l.param_count() == 0, "no parameters");
  auto predict = [&] { V q = sym::reals("q", n), q0 = q; sym::check_eq(l.forward(q), q0, "prediction returns the input"); sym::check_eq(l.last_output(), q0, "prediction hands the input on"); };
  for (size_t s = 0; s < (n > 2 ? 1 : TIER(2, n == 2 ? 2 : 3)); s++) { size_t when = sym::pick("predict", 0, 2); if (when == 1) predict(); V x = sym::reals("x", n), g = sym::reals("g", n); for (size_t i = 0; i < n; i++) { ls_assume(x[i] != 0); ls_assume(g[i] != 0); } V y = l.training_forward(x); sym::check_eq(l.last_output(), y, "last output"); if (when == 2) predict(); V b = l.backward(g); ls_check(y.size() == n && b.size() == n, "sizes");
    for (size_t i = 0; i < n; i++) { double u = (double)ref() / (double)~0ull; if (p == 0) ls_assume(u > 0); if (u > p) { ls_check_eq(y[i] * (1 - p), x[i] * (p == 1 ? 0 : 1), "kept value is scaled"); ls_check_eq(b[i], g[i] * scale, "gradient of a kept value"); } else { ls_check_eq(y[i], 0, "dropped value"); ls_check_eq(b[i], 0, "gradient of a dropped value"); } } }
  ls_obs("draws", ls::draw_count()); ls_reach("end"); }
ENTRY(extremes) { size_t n = sym::pick("n", 1, 3); bool all = sym::flag("all"); DropoutLayer l("d", n, all ? 1.0 : 0.0, RneType(3)); V x = sym::reals("x", n), g = sym::reals("g", n); V y = l.training_forward(x), b = l.backward(g); for (size_t i = 0; i < n; i++) if (all) { ls_check_eq(y[i], 0, "probability one drops everything"); ls_check_eq(b[i], 0, "no gradient passes"); } else { ls_check(y[i] == 0 || y[i] == x[i], "probability zero scales nothing"); } ls_reach("end"); }
ENTRY(clone) { DropoutLayer l("d", 2, 0.5, RneType(3)); V x = sym::reals("x", 2), g = sym::reals("g", 2); for (double v : x) ls_assume(v != 0); V y = l.training_forward(x); auto c = l.clone(); V z = c->training_forward(x); V b = l.backward(g); for (size_t i = 0; i < 2; i++) ls_check_eq(b[i], y[i] == 0 ? 0 : 2 * g[i], "a clone's mask does not touch the original's"); V cb = c->backward(g); for (size_t i = 0; i < 2; i++) ls_check_eq(cb[i], z[i] == 0 ? 0 : 2 * g[i], "the clone uses its own mask"); ls_reach("end"); }
// inside a model, prediction passes the value through
ENTRY(model) { size_t n = sym::pick("n", 1, 2); Model m("m"); auto a = m.add_layer<LinearLayer>("a", n); auto d = m.add_layer<DropoutLayer>("d", n, 0.5, RneType(3)); auto c = m.add_layer<LinearLayer>("c", n); m.create_edge(a, d); m.create_edge(d, c); auto loss = m.add_loss<MeanSquaredLossLayer>("l", n, 1, 0.1); m.create_loss_edge(c, loss); bool train = sym::flag("train"); V x = sym::reals("x", n), t(n, 0.0); if (train) m.step(x, t); V q = sym::reals("q", n); V y = m.predict(q); sym::check_eq(y, q, "dropout is the identity in prediction"); ls_reach("end"); }
ENTRY(large) { size_t n = TIER(6, 9); bool again = sym::flag("predict"); DropoutLayer l("d", n, 0.5, RneType(7)); RneType ref(7); V x = sym::mostly(n, 4, sym::real("x").v), g = sym::reals("g", n); V y = l.training_forward(x); if (again) sym::check_eq(l.forward(g), g, "prediction returns the input"); V b = l.backward(g); for (size_t i = 0; i < n; i++) { bool keep = (double)ref() / (double)~0ull > 0.5; ls_check_eq(y[i], keep ? 2 * x[i] : 0, "kept values are scaled, the others dropped"); ls_check_eq(b[i], keep ? 2 * g[i] : 0, "gradient of kept and dropped values"); } ls_reach("end"); }
ENTRY(reshape) { size_t a = sym::pick("a", 1, 3), n = sym::pick("n", 1, 3); DropoutLayer l("d", a, 0.5, RneType(7)); RneType ref(7); l.input_shape(LayerShape(n)); ls_check(l.input_size() == n && l.output_size() == n, "shape follows the input"); ls_check(l.last_output().size() == n, "room for the outputs"); V x = sym::reals("x", n), g = sym::reals("g", n); if (sym::flag("predict")) sym::check_eq(l.forward(x), x, "prediction returns the input"); V y = l.training_forward(x), b = l.backward(g); ls_check(y.size() == n && b.size() == n, "sizes after reshaping"); for (size_t i = 0; i < n; i++) { bool keep = (double)ref() / (double)~0ull > 0.5; ls_check_eq(y[i], keep ? 2 * x[i] : 0, "value after reshaping"); ls_check_eq(b[i], keep ? 2 * g[i] : 0, "gradient after reshaping"); } ls_reach("end"); }
