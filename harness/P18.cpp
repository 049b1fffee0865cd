// P18: pooling kernels
#include "sym.h"
#include "dnn/dlmath.hpp"
//@ bound input sides 1..4 (quick) / 1..5 (thorough), windows 1..3, strides 0..3, channels 1..2 (quick) / 1..3 (thorough), all values symbolic reals (max pooling: of magnitude at most 1e300); max pooling of at most 9 windows
//@ H_avg t=150 T=800
//@ H_max t=250 T=850 f=0
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath; using S2 = L::Shape2d; using S3 = L::Shape3d;
struct G { size_t h, w, c, kh, kw, sh, sw, oh, ow; };
static G geo(size_t m, size_t ch) { G g; g.h = sym::pick("h", 1, m); g.w = sym::pick("w", 1, m); g.kh = sym::pick("kh", 1, std::min(g.h, (size_t)3)); g.kw = sym::pick("kw", 1, std::min(g.w, (size_t)3)); g.sh = sym::pick("sh", 0, 3); g.sw = sym::pick("sw", 0, 3); g.c = sym::pick("c", 1, ch); g.oh = (g.h - g.kh) / std::max(g.sh, (size_t)1) + 1; g.ow = (g.w - g.kw) / std::max(g.sw, (size_t)1) + 1; g.sh = g.sh; return g; }
template <class F> static void each(const G& g, F f) { size_t sh = std::max(g.sh, (size_t)1), sw = std::max(g.sw, (size_t)1); for (size_t r = 0; r < g.oh; r++) for (size_t q = 0; q < g.ow; q++) for (size_t c = 0; c < g.c; c++) { std::vector<size_t> ix; for (size_t i = 0; i < g.kh; i++) for (size_t j = 0; j < g.kw; j++) ix.push_back(((r * sh + i) * g.w + q * sw + j) * g.c + c); f((r * g.ow + q) * g.c + c, ix); } }
ENTRY(avg) { G g = geo(TIER(4, 5), TIER(2, 3)); V x = sym::reals("x", g.h * g.w * g.c), x2 = x; size_t n = g.oh * g.ow * g.c; V d = sym::reals("old", n + 1); double keep = d[n]; ls_check(L::avg_pool(d.data(), x2.data(), S3(g.h, g.w, g.c), S2(g.kh, g.kw), S2(g.sh, g.sw)) == d.data(), "destination returned"); each(g, [&](size_t o, const std::vector<size_t>& ix) { double s = 0; for (size_t i : ix) s += x[i]; ls_check_eq(d[o] * (double)ix.size(), s, "mean of a window"); }); ls_check_eq(d[n], keep, "nothing past the output is written"); sym::check_eq(x2, x, "input unchanged"); ls_obsr("y", d[0]); ls_reach("end"); }
ENTRY(max) { G g = geo(TIER(4, 4), 2); if (g.oh * g.ow > 9 || (g.c > 1 && g.oh * g.ow > 4)) ls_kill(); V x = sym::finite("x", g.h * g.w * g.c), x2 = x; size_t n = g.oh * g.ow * g.c; V d = sym::reals("old", n + 1); double keep = d[n]; ls_check(L::max_pool(d.data(), x2.data(), S3(g.h, g.w, g.c), S2(g.kh, g.kw), S2(g.sh, g.sw)) == d.data(), "destination returned"); each(g, [&](size_t o, const std::vector<size_t>& ix) { bool up = true, in = false; for (size_t i : ix) { up = up & (x[i] <= d[o]); in = in | (x[i] == d[o]); } ls_check(up, "no window element exceeds the pooled value"); ls_check(in, "the pooled value is a window element"); }); ls_check_eq(d[n], keep, "nothing past the output is written"); sym::check_eq(x2, x, "input unchanged"); ls_obsr("y", d[0]); ls_reach("end"); }
