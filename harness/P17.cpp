// P17: cross-correlation
#include "sym.h"
#include "dnn/dlmath.hpp"
//@ bound input sides 1..3, kernel sides 1..3, strides 0..2, paddings 0..1, channels 1..2, filters 1..2 (quick); one larger family with sides up to 5, kernels up to 4, strides up to 3, paddings up to 2; thorough: sides up to 4, channels and filters up to 3; all values symbolic reals
//@ H_full t=250 T=850 j=8
//@ H_wide t=150 T=850
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath; using S2 = L::Shape2d; using S3 = L::Shape3d;
struct G { size_t h, w, c, kh, kw, f, sh, sw, ph, pw; };
static V want(const G& g, const V& x, const V& k, size_t& oh, size_t& ow) { long sh = (long)std::max(g.sh, (size_t)1), sw = (long)std::max(g.sw, (size_t)1), H = (long)g.h, W = (long)g.w; oh = (g.h + 2 * g.ph - g.kh) / (size_t)sh + 1; ow = (g.w + 2 * g.pw - g.kw) / (size_t)sw + 1; V o; for (long r = 0; r < (long)oh; r++) for (long q = 0; q < (long)ow; q++) for (size_t f = 0; f < g.f; f++) { double s = 0; for (long i = 0; i < (long)g.kh; i++) for (long j = 0; j < (long)g.kw; j++) { long y = r * sh + i - (long)g.ph, z = q * sw + j - (long)g.pw; if (y < 0 || z < 0 || y >= H || z >= W) continue; for (size_t c = 0; c < g.c; c++) s += x[(size_t)(y * W + z) * g.c + c] * k[(((size_t)i * g.kw + (size_t)j) * g.c + c) * g.f + f]; } o.push_back(s); } return o; }
static void run(const G& g) { if (g.kh > g.h + 2 * g.ph || g.kw > g.w + 2 * g.pw) ls_kill(); V x = sym::reals("x", g.h * g.w * g.c), k = sym::reals("k", g.kh * g.kw * g.c * g.f); size_t oh, ow; V e = want(g, x, k, oh, ow); V d = sym::reals("old", e.size() + 1); double keep = d.back(); V x2 = x, k2 = k; double* r = L::cross_correlation(d.data(), x2.data(), S3(g.h, g.w, g.c), k2.data(), S2(g.kh, g.kw), g.f, S2(g.sh, g.sw), S2(g.ph, g.pw)); ls_check(r == d.data(), "destination returned"); for (size_t i = 0; i < e.size(); i++) ls_check_eq(d[i], e[i], "cross-correlation value"); ls_check_eq(d.back(), keep, "nothing past the output is written"); sym::check_eq(x2, x, "input unchanged"); sym::check_eq(k2, k, "kernel unchanged");
  if (g.f == 1) { V d3(e.size()); L::cross_correlation(d3.data(), x.data(), S3(g.h, g.w, g.c), k.data(), S2(g.kh, g.kw), S2(g.sh, g.sw), S2(g.ph, g.pw)); sym::check_eq(d3, e, "single-filter form"); if (g.c == 1) { V d2(e.size()); L::cross_correlation(d2.data(), x.data(), S2(g.h, g.w), k.data(), S2(g.kh, g.kw), S2(g.sh, g.sw), S2(g.ph, g.pw)); sym::check_eq(d2, e, "two-dimensional form"); } }
  ls_obsr("y", d[0]); ls_reach("end"); }
ENTRY(full) { size_t m = TIER(3, 4); G g; g.h = sym::pick("h", 1, m); g.w = sym::pick("w", 1, m); g.kh = sym::pick("kh", 1, m); g.kw = sym::pick("kw", 1, m); g.sh = sym::pick("sh", 0, 2); g.sw = sym::pick("sw", 1, 2); g.ph = sym::pick("ph", 0, 1); g.pw = sym::pick("pw", 0, 1); g.c = sym::pick("c", 1, TIER(2, 3)); g.f = sym::pick("f", 1, TIER(2, 3)); if (g.sh == 0 && g.sw != 1) ls_kill(); run(g); }
ENTRY(wide) { G g; g.h = sym::pick("h", 3, 5); g.w = sym::pick("w", TIER(4, 3), 5); g.kh = sym::pick("kh", 2, TIER(3, 4)); g.kw = sym::pick("kw", 2, 4); g.sh = sym::pick("sh", 1, 3); g.sw = sym::pick("sw", 1, 3); g.ph = sym::pick("ph", 0, 2); g.pw = sym::pick("pw", TIER(1, 0), 2); g.c = TIER(1, 2); g.f = 2; run(g); }
ENTRY(defaults) { V x = sym::reals("x", 9 * 2), k = sym::reals("k", 4 * 2); G g{3, 3, 2, 2, 2, 1, 1, 1, 0, 0}; size_t a, b; V e = want(g, x, k, a, b), d(e.size()); L::cross_correlation(d.data(), x.data(), S3(3, 3, 2), k.data(), S2(2)); sym::check_eq(d, e, "default stride and padding"); V k2 = sym::reals("k2", 4 * 2 * 2); g.f = 2; V e2 = want(g, x, k2, a, b), d2(e2.size()), d1(4); L::cross_correlation(d2.data(), x.data(), S3(3, 3, 2), k2.data(), S2(2), 2); sym::check_eq(d2, e2, "default stride and padding"); g.f = g.c = 1; V e1 = want(g, x, k, a, b); L::cross_correlation(d1.data(), x.data(), S2(3, 3), k.data(), S2(2)); sym::check_eq(d1, e1, "default stride and padding");
  ls_check(L::cross_correlation(d.data(), x.data(), S3(0, 0, 1), k.data(), S2(0, 0)) == d.data(), "empty input"); sym::check_eq(d, e, "an empty input writes nothing"); ls_reach("end"); }
