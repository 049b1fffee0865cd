// P31: concatenation layer
#include "sym.h"
#include "all_dnn.inc"
//@ bound (large) 2..6 sources of 3x4x5 with extents 1..5 along the axis
//@ bound construction: lists of 0..3 (thorough 0..4) shapes with sides 1..2 (thorough 1..3), axes 0..3; joining: 1..3 sources with every side 1..2 and along the axis 1..3, axes 0..2, symbolic reals, 2 (thorough 3) rounds
//@ assume sources are handed over in the order of the shapes; the layer's dump and reshaping are outside
//@parallel 2
using namespace EdgeLearning; using V = std::vector<double>; using S3 = DLMath::Shape3d;
ENTRY(construct) { size_t k = sym::pick("shapes", 0, 3), ax = sym::pick("axis", 0, 3), top = k < 3 ? TIER(2, 3) : 2; std::vector<S3> s; for (size_t i = 0; i < k; i++) { size_t a = sym::pick("h", 1, top), b = sym::pick("w", 1, top), c = sym::pick("c", 1, top); s.push_back(S3(a, b, c)); }
  bool ok = k > 0 && ax < 3; size_t dim[3] = {0, 0, 0}; for (size_t d = 0; d < 3 && k; d++) for (size_t i = 0; i < k; i++) { if (d == ax) dim[d] += s[i].at(d); else { dim[d] = s[0].at(d); if (s[i].at(d) != s[0].at(d)) ok = false; } }
  bool bad = sym::throws_as<std::runtime_error>([&] { ConcatenateLayer l("l", s, ax); ls_check(l.output_shape().height() == dim[0] && l.output_shape().width() == dim[1] && l.output_shape().channels() == dim[2], "the output shape is the joined shape"); ls_check(l.output_size() == dim[0] * dim[1] * dim[2] && l.last_output().size() == l.output_size(), "output size"); ls_check(l.param_count() == 0 && l.name() == "l", "no parameters"); ls_check(l.clone()->output_size() == l.output_size(), "the clone has the shape"); });
  ls_check(bad == !ok, "accepted exactly when the shapes can be joined along the axis"); ls_reach("end"); }
struct Joined { size_t k, ax; std::vector<S3> s; size_t dim[3]; };
static Joined pick_shapes(size_t lo) { Joined j; j.k = sym::pick("sources", lo, 3); j.ax = sym::pick("axis", 0, 2); for (size_t d = 0; d < 3; d++) j.dim[d] = d == j.ax ? 0 : sym::pick("side", 1, 2); for (size_t i = 0; i < j.k; i++) { size_t a = sym::pick("along", 1, j.k < 3 ? 3 : 2); size_t q[3] = {j.dim[0], j.dim[1], j.dim[2]}; q[j.ax] = a; j.dim[j.ax] += a; j.s.push_back(S3(q[0], q[1], q[2])); } return j; }
static V join(const Joined& j, const std::vector<V>& in) { V o(j.dim[0] * j.dim[1] * j.dim[2]); size_t off = 0; for (size_t i = 0; i < j.k; i++) { const S3& s = j.s[i]; for (size_t h = 0; h < s.at(0); h++) for (size_t w = 0; w < s.at(1); w++) for (size_t c = 0; c < s.at(2); c++) { size_t H = h + (j.ax == 0 ? off : 0), W = w + (j.ax == 1 ? off : 0), C = c + (j.ax == 2 ? off : 0); o[(H * j.dim[1] + W) * j.dim[2] + C] = in[i][(h * s.at(1) + w) * s.at(2) + c]; } off += s.at(j.ax); } return o; }
ENTRY(forward) { Joined j = pick_shapes(1); ConcatenateLayer l("l", j.s, j.ax); for (size_t r = 0; r < TIER(2, 3); r++) { std::vector<V> in; for (size_t i = 0; i < j.k; i++) { V x = sym::reals("x", j.s[i].size()), old = x; in.push_back(x); const V& y = (r + i) % 2 ? l.training_forward(x) : l.forward(x); ls_check(y.size() == l.output_size(), "output size"); sym::check_eq(x, old, "sources unchanged"); } sym::check_eq(l.last_output(), join(j, in), "the sources joined along the axis"); } ls_reach("end"); }
ENTRY(backward) { Joined j = pick_shapes(1); ConcatenateLayer l("l", j.s, j.ax); std::vector<V> idx; size_t n = 0; for (size_t i = 0; i < j.k; i++) { V x = sym::reals("x", j.s[i].size()), p; l.training_forward(x); for (size_t k = 0; k < x.size(); k++) p.push_back(double(n++)); idx.push_back(p); } V g = sym::reals("g", l.output_size()), g0 = g, e = join(j, idx), part(n); for (size_t i = 0; i < n; i++) part[size_t(e[i])] = g[i];
  l.backward(g); sym::check_eq(g, g0, "output gradient unchanged"); n = 0; for (size_t i = 0; i < j.k; i++) { V b = l.last_input_gradient(); ls_check(b.size() >= idx[i].size(), "room for the gradient of each source"); for (size_t k = 0; k < idx[i].size(); k++) ls_check_eq(b[k], part[n++], "each source receives its part of the output gradient"); } ls_reach("end"); }
ENTRY(large) { Joined j; j.k = sym::pick("sources", 2, 6); j.ax = sym::pick("axis", 0, 2); for (size_t d = 0; d < 3; d++) j.dim[d] = d == j.ax ? 0 : 3 + d; for (size_t i = 0; i < j.k; i++) { size_t q[3] = {j.dim[0], j.dim[1], j.dim[2]}; q[j.ax] = (i * 3 + 2) % 5 + 1; j.dim[j.ax] += q[j.ax]; j.s.push_back(S3(q[0], q[1], q[2])); } ConcatenateLayer l("l", j.s, j.ax); ls_check(l.output_shape().height() == j.dim[0] && l.output_shape().width() == j.dim[1] && l.output_shape().channels() == j.dim[2], "the output shape is the joined shape"); for (size_t r = 0; r < 2; r++) { std::vector<V> in; for (size_t i = 0; i < j.k; i++) { V x = sym::reals("x", j.s[i].size()); in.push_back(x); r ? l.training_forward(x) : l.forward(x); } sym::check_eq(l.last_output(), join(j, in), "the sources joined along the axis"); } ls_reach("end"); }
