// P27: pooling layers
#include "sym.h"
#include "all_dnn.inc"
//@ bound input sides 1..4 (quick) / 1..5 (thorough), windows 1..3, strides 1..3, channels 1..2 (quick) / 1..3 (thorough), two passes in a row, all values symbolic reals (max pooling: of magnitude at most 1e300); max pooling of at most 4 windows of at most 6 elements with every order of the values (thorough: 9 windows); larger max-pooled inputs with a symbolic set of values at one window
//@ assume strides of at least 1; the gradient of a maximum is required only where the maximum of every window is unique
//@ H_avg t=150 T=800
//@ H_max t=250 T=850 f=0
//@ H_max_order t=150 T=850
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath; using S2 = L::Shape2d; using S3 = L::Shape3d;
struct G { size_t h, w, c, kh, kw, sh, sw, oh, ow; size_t in() const { return h * w * c; } size_t out() const { return oh * ow * c; } };
static G fit(G g) { g.oh = (g.h - g.kh) / g.sh + 1; g.ow = (g.w - g.kw) / g.sw + 1; return g; }
static G geo(size_t m, size_t ch) { G g; g.h = sym::pick("h", 1, m); g.w = sym::pick("w", 1, m); g.kh = sym::pick("kh", 1, std::min(g.h, (size_t)3)); g.kw = sym::pick("kw", 1, std::min(g.w, (size_t)3)); g.sh = sym::pick("sh", 1, 3); g.sw = sym::pick("sw", 1, 3); g.c = sym::pick("c", 1, ch); return fit(g); }
template <class F> static void each(const G& g, F f) { for (size_t r = 0; r < g.oh; r++) for (size_t q = 0; q < g.ow; q++) for (size_t c = 0; c < g.c; c++) { std::vector<size_t> ix; for (size_t i = 0; i < g.kh; i++) for (size_t j = 0; j < g.kw; j++) ix.push_back(((r * g.sh + i) * g.w + q * g.sw + j) * g.c + c); f((r * g.ow + q) * g.c + c, ix); } }
template <class T> static void shape(T& l, const G& g) { ls_check(l.param_count() == 0, "no parameters"); auto o = l.output_shape(); ls_check(o.height() == g.oh && o.width() == g.ow && o.channels() == g.c && l.output_size() == g.out() && l.input_size() == g.in(), "output shape"); }
static void avg_pass(AveragePoolingLayer& l, const G& g, bool predict) { V x = sym::reals("x", g.in()), y = sym::reals("g", g.out()), xx = x, yy = y; const V& o = predict ? l.forward(x) : l.training_forward(x); ls_check(o.size() == g.out(), "output size"); V want(g.in(), 0.0); double n = (double)(g.kh * g.kw); each(g, [&](size_t k, const std::vector<size_t>& ix) { double s = 0; for (size_t i : ix) { s += x[i]; want[i] += y[k]; } ls_check_eq(o[k] * n, s, "mean of a window"); }); if (predict) return; const V& b = l.backward(y); ls_check(b.size() == g.in(), "input gradient size"); for (size_t i = 0; i < g.in(); i++) ls_check_eq(b[i] * n, want[i], "input gradient"); sym::check_eq(x, xx, "input unchanged"); sym::check_eq(y, yy, "output gradient unchanged"); }
ENTRY(avg) { G g = geo(TIER(4, 5), TIER(2, 3)); AveragePoolingLayer l("p", S3(g.h, g.w, g.c), S2(g.kh, g.kw), S2(g.sh, g.sw)); shape(l, g); avg_pass(l, g, false); ls_reach("end"); }
ENTRY(avg_again) { G g = fit(sym::flag("over") ? G{3, 2, 1, 2, 1, 1, 1, 0, 0} : G{2, 4, 2, 2, 2, 1, 2, 0, 0}); AveragePoolingLayer l("p", S3(g.h, g.w, g.c), S2(g.kh, g.kw), S2(g.sh, g.sw)); for (size_t s = 0; s < 2; s++) { if (sym::flag("predict")) avg_pass(l, g, true); avg_pass(l, g, false); } ls_reach("end"); }
// each window's gradient reaches its maximum only: the values are symbolic, the place of each unique maximum is assumed and every place is explored
static void max_at(MaxPoolingLayer& l, const G& g, const V& x, const std::vector<size_t>& at) { V y = sym::reals("g", g.out()), yy = y, xx = x; const V& o = l.training_forward(x); ls_check(o.size() == g.out(), "output size"); V want(g.in(), 0.0); for (size_t k = 0; k < g.out(); k++) { ls_check_eq(o[k], x[at[k]], "maximum of a window"); want[at[k]] += y[k]; } const V& b = l.backward(y); ls_check(b.size() == g.in(), "input gradient size"); for (size_t i = 0; i < g.in(); i++) ls_check_eq(b[i], want[i], "input gradient"); sym::check_eq(x, xx, "input unchanged"); sym::check_eq(y, yy, "output gradient unchanged"); }
// values on a grid of geometries: a symbolic permutation-free ordering per geometry, the maximum at a chosen offset in every window
ENTRY(max) { G g = geo(TIER(4, 4), TIER(1, 2)); if (g.oh * g.ow > TIER(4, 9) || g.kh * g.kw > 6) ls_kill(); MaxPoolingLayer l("p", S3(g.h, g.w, g.c), S2(g.kh, g.kw), S2(g.sh, g.sw)); shape(l, g); V x = sym::finite("x", g.in()); size_t turn = sym::pick("turn", 0, TIER(2, 5)); std::vector<size_t> at(g.out());
  // rank of each element under an affine order that sends the largest to different places; elements are assumed strictly increasing in rank
  size_t n = g.in(); std::vector<size_t> rank(n); for (size_t i = 0; i < n; i++) { size_t v = turn < 2 ? (turn ? n - 1 - i : i) : (i * (2 * turn + 3) + turn * turn) % 97; rank[i] = v; } for (size_t i = 0; i < n; i++) { size_t next = n; for (size_t j = 0; j < n; j++) if (rank[j] > rank[i] && (next == n || rank[j] < rank[next])) next = j; if (next != n) ls_assume(x[i] < x[next]); }
  each(g, [&](size_t k, const std::vector<size_t>& ix) { size_t m = ix[0]; for (size_t i : ix) if (rank[i] > rank[m]) m = i; at[k] = m; }); max_at(l, g, x, at); ls_reach("end"); }
// every order of the values
ENTRY(max_order) { static const G s[] = {{2, 2, 1, 2, 2, 1, 1, 0, 0}, {2, 3, 1, 2, 2, 1, 1, 0, 0}, {1, 3, 2, 1, 2, 1, 1, 0, 0}, {3, 2, 1, 2, 1, 1, 1, 0, 0}, {2, 3, 1, 2, 3, 1, 1, 0, 0}, {3, 3, 1, 2, 2, 1, 1, 0, 0}}; G g = fit(s[sym::pick("case", 0, TIER(4, 5))]); MaxPoolingLayer l("p", S3(g.h, g.w, g.c), S2(g.kh, g.kw), S2(g.sh, g.sw)); V x = sym::finite("x", g.in()); std::vector<size_t> at(g.out()); each(g, [&](size_t k, const std::vector<size_t>& ix) { size_t m = ix[0]; for (size_t i : ix) if (x[i] > x[m]) m = i; for (size_t i : ix) if (i != m) ls_assume(x[i] < x[m]); at[k] = m; }); max_at(l, g, x, at); ls_reach("end"); }
// the maximum moves between passes
static V ordered(const char* n, const std::vector<size_t>& up) { V x = sym::finite(n, up.size()); for (size_t i = 1; i < up.size(); i++) ls_assume(x[up[i - 1]] < x[up[i]]); return x; }
ENTRY(max_again) { G g = fit(G{2, 3, 1, 2, 2, 1, 1, 0, 0}); MaxPoolingLayer l("p", S3(g.h, g.w, g.c), S2(g.kh, g.kw), S2(g.sh, g.sw)); for (size_t s = 0; s < TIER(2, 3); s++) { bool mid = sym::flag("mid"); if (sym::flag("predict")) { V q = ordered("q", {2, 0, 1, 3, 5, 4}); const V& o = l.forward(q); ls_check_eq(o[0], q[4], "maximum of a window"); } max_at(l, g, mid ? ordered("x", {5, 4, 3, 0, 2, 1}) : ordered("x", {3, 1, 4, 2, 0, 5}), mid ? std::vector<size_t>{1, 1} : std::vector<size_t>{0, 5}); } ls_reach("end"); }
// the average is the derivative's linear case; reshaped layers work at their new size
ENTRY(reshape) { G g = fit(G{2, 2, 1, 2, 1, 1, 1, 0, 0}); AveragePoolingLayer l("p", S3(2, 2, 1), S2(2, 1), S2(1, 1)); MaxPoolingLayer m("p", S3(2, 2, 1), S2(2, 1), S2(1, 1)); g.h = sym::pick("h", 2, 4); g.w = sym::pick("w", 1, 3); g.c = sym::pick("c", 1, 2); g = fit(g); l.input_shape(LayerShape(S3(g.h, g.w, g.c))); m.input_shape(LayerShape(S3(g.h, g.w, g.c))); shape(l, g); shape(m, g); avg_pass(l, g, false); V x = sym::finite("y", g.in()); for (size_t i = 1; i < x.size(); i++) ls_assume(x[i - 1] < x[i]); std::vector<size_t> at(g.out()); each(g, [&](size_t k, const std::vector<size_t>& ix) { at[k] = ix.back(); }); max_at(m, g, x, at); ls_reach("end"); }
