// P26: convolutional layer
#include "sym.h"
#include "all_dnn.inc"
//@ bound input sides 1..3, kernel sides 1..3, strides 1..2, paddings 0..1, channels 1..2, filters 1..2 (thorough: sides up to 4, channels and filters up to 3); a second family with sides up to 5, kernels up to 4, strides up to 3, paddings up to 2; histories of 2 (quick) / 3 (thorough) training passes with predictions between; all values symbolic reals
//@ assume strides of at least 1 and kernels no larger than the padded input
//@ H_geometry t=250 T=850 j=8
//@ H_wide t=150 T=850
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath; using S2 = L::Shape2d; using S3 = L::Shape3d;
struct G { size_t h, w, c, kh, kw, f, sh, sw, ph, pw; size_t oh() const { return (h + 2 * ph - kh) / sh + 1; } size_t ow() const { return (w + 2 * pw - kw) / sw + 1; } size_t in() const { return h * w * c; } size_t out() const { return oh() * ow() * f; } size_t nk() const { return kh * kw * c * f; } bool ok() const { return kh <= h + 2 * ph && kw <= w + 2 * pw; } };
static V want(const G& g, const V& x, const sym::Reals& p) { V o; for (long r = 0; r < (long)g.oh(); r++) for (long q = 0; q < (long)g.ow(); q++) for (size_t f = 0; f < g.f; f++) { double s = p[g.nk() + f].v; for (long i = 0; i < (long)g.kh; i++) for (long j = 0; j < (long)g.kw; j++) { long y = r * (long)g.sh + i - (long)g.ph, z = q * (long)g.sw + j - (long)g.pw; if (y < 0 || z < 0 || y >= (long)g.h || z >= (long)g.w) continue; for (size_t c = 0; c < g.c; c++) s += x[((size_t)y * g.w + (size_t)z) * g.c + c] * p[(((size_t)i * g.kw + (size_t)j) * g.c + c) * g.f + f].v; } o.push_back(s); } return o; }
static ConvolutionalLayer make(const G& g) { return ConvolutionalLayer("c", S3(g.h, g.w, g.c), S2(g.kh, g.kw), g.f, S2(g.sh, g.sw), S2(g.ph, g.pw)); }
static sym::Reals params(ConvolutionalLayer& l, const G& g) { ls_check(l.param_count() == g.nk() + g.f, "number of parameters"); ls_check(l.input_size() == g.in() && l.output_size() == g.out(), "input and output size"); sym::Reals p = sym::reals("w", g.nk() + g.f); for (size_t k = 0; k < p.size(); k++) { l.param(k) = p[k].v; ls_check_eq(l.gradient(k), 0, "gradients start at zero"); } return p; }
static void train(ConvolutionalLayer& l, const G& g, const sym::Reals& p, double& total) { sym::Reals x = sym::reals("x", g.in()); V xv = x, e = want(g, xv, p), d = sym::reals("g", g.out()), dd = d; sym::check_eq(l.training_forward(xv), e, "training output"); sym::check_eq(l.last_output(), e, "last output"); double q = 0; for (size_t i = 0; i < e.size(); i++) q += d[i] * e[i]; total += q; const V& b = l.backward(d); ls_check(b.size() == g.in(), "input gradient size"); for (size_t j = 0; j < b.size(); j++) ls_check_eq(b[j], sym::D(q, x[j]), "input gradient"); sym::check_eq(d, dd, "output gradient unchanged"); for (size_t k = 0; k < p.size(); k++) { ls_check_eq(l.gradient(k), sym::D(total, p[k]), "accumulated parameter gradient"); ls_check_eq(l.param(k), p[k].v, "parameters unchanged"); } }
static void run(const G& g, size_t steps, bool predict) { if (!g.ok()) ls_kill(); ConvolutionalLayer l = make(g); auto sh = ConvolutionalLayer::calculate_output_shape(S3(g.h, g.w, g.c), S2(g.kh, g.kw), S2(g.sh, g.sw), S2(g.ph, g.pw), g.f); ls_check(sh.height() == g.oh() && sh.width() == g.ow() && sh.channels() == g.f, "output shape"); sym::Reals p = params(l, g); double total = 0; for (size_t s = 0; s < steps; s++) { if (predict) { V x = sym::reals("q", g.in()); sym::check_eq(l.forward(x), want(g, x, p), "prediction"); } train(l, g, p, total); } ls_obsr("g", l.gradient(0)); ls_reach("end"); }
ENTRY(geometry) { size_t m = TIER(3, 4); G g; g.h = sym::pick("h", 1, m); g.w = sym::pick("w", 1, m); g.kh = sym::pick("kh", 1, 3); g.kw = sym::pick("kw", 1, TIER(2, 3)); g.sh = sym::pick("sh", 1, 2); g.sw = sym::pick("sw", 1, 2); g.ph = sym::pick("ph", 0, 1); g.pw = sym::pick("pw", 0, 1); size_t cf = sym::pick("cf", 0, 2); g.c = cf == 0 ? 1 : TIER(2, 3); g.f = cf == 1 ? 1 : cf == 0 ? TIER(2, 3) : 2; run(g, 1, false); }
ENTRY(wide) { G g; g.h = sym::pick("h", 4, 5); g.w = sym::pick("w", 4, TIER(4, 5)); g.kh = sym::pick("kh", 2, TIER(3, 4)); g.kw = sym::pick("kw", 3, 4); g.sh = sym::pick("sh", 1, 3); g.sw = sym::pick("sw", TIER(2, 1), 3); g.ph = sym::pick("ph", 0, 2); g.pw = sym::pick("pw", TIER(1, 0), 2); g.c = 2; g.f = 2; run(g, 1, false); }
ENTRY(history) { G g; size_t k = sym::pick("case", 0, 2); g = k == 0 ? G{2, 2, 1, 1, 2, 2, 1, 1, 0, 0} : k == 1 ? G{2, 3, 2, 2, 2, 2, 1, 1, 0, 1} : G{3, 3, 1, 2, 2, 1, 2, 1, 1, 0}; run(g, TIER(2, 3), true); }
ENTRY(many) { G g = sym::flag("filters") ? G{2, 2, 1, 1, 1, 9, 1, 1, 0, 0} : G{2, 2, 9, 2, 1, 1, 1, 1, 0, 0}; run(g, 1, false); }
ENTRY(bounds) { G g{2, 2, 1, 2, 1, 2, 1, 1, 0, 0}; ConvolutionalLayer l = make(g); size_t k = g.nk() + g.f + sym::range("past", 0, 0xffffffu); ls_check(sym::throws_as<std::runtime_error>([&] { l.param(k); }), "a parameter past the last is refused"); ls_check(sym::throws_as<std::runtime_error>([&] { l.gradient(k); }), "a gradient past the last is refused"); ls_reach("end"); }
// clones share parameters and keep their own gradients; a reshaped layer works at its new size
ENTRY(clone) { G g{2, 2, 1, 1, 2, 2, 1, 1, 0, 0}; ConvolutionalLayer l = make(g); sym::Reals p = params(l, g); auto c = std::dynamic_pointer_cast<ConvolutionalLayer>(l.clone()); double a = 0, b = 0; train(*c, g, p, b); for (size_t k = 0; k < p.size(); k++) ls_check_eq(l.gradient(k), 0, "training a clone adds nothing to the original's gradients"); train(l, g, p, a); for (size_t k = 0; k < p.size(); k++) ls_check_eq(c->gradient(k), sym::D(b, p[k]), "clone gradient"); ls_reach("end"); }
ENTRY(reshape) { G g{2, 2, 1, 2, 1, 2, 1, 1, 0, 0}; ConvolutionalLayer l = make(g); g.h = sym::pick("h", 2, 3); g.w = sym::pick("w", 1, 3); g.c = sym::pick("c", 1, 2); l.input_shape(LayerShape(S3(g.h, g.w, g.c))); sym::Reals p = params(l, g); double t = 0; train(l, g, p, t); ls_reach("end"); }
