// P19: concatenation, separation, appending and extraction
#include "sym.h"
#include "dnn/dlmath.hpp"
//@ bound (large) 2..6 arrays of 3x4x5 with extents 1..5 along the axis
//@ bound two arrays of up to 2x2x2 (quick) / 3x3x2 (thorough) or three of up to 2x2x2 (matching) symbolic values, every axis 0..3, every shape mismatch; append/extract of 1..3 dimensional shapes up to 3x2x2 at every offset
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath; using S3 = L::Shape3d; using Dim = std::vector<size_t>;
//@ H_two T=800
//@ H_many T=800
//@ H_append T=800
static size_t prod(const Dim& d) { size_t p = 1; for (size_t x : d) p *= x; return p; }
static size_t at(const Dim& d, const Dim& i) { size_t o = 0; for (size_t k = 0; k < d.size(); k++) o = o * d[k] + i[k]; return o; }
// moves source element of shape s (placed at offset off along axis) to its index in shape d
template <class F> static void each(const Dim& s, F f) { Dim i(s.size(), 0); if (prod(s) == 0) return; while (true) { f(i); size_t k = s.size(); while (k > 0 && ++i[k - 1] == s[k - 1]) i[--k] = 0; if (!k) return; } }
static V joined(const std::vector<Dim>& s, const std::vector<V>& v, size_t axis, Dim& o) { o = s[0]; for (size_t k = 1; k < s.size(); k++) o[axis] += s[k][axis]; V r(prod(o)); size_t off = 0; for (size_t k = 0; k < s.size(); k++) { each(s[k], [&](Dim i) { double x = v[k][at(s[k], i)]; i[axis] += off; r[at(o, i)] = x; }); off += s[k][axis]; } return r; }
ENTRY(two) { size_t axis = sym::pick("axis", 0, 3); std::vector<Dim> s; std::vector<V> v; for (int k = 0; k < 2; k++) { s.push_back({sym::pick("h", 1, TIER(2, 3)), sym::pick("w", 1, TIER(2, 3)), sym::pick("c", 1, 2)}); v.push_back(sym::reals("v", prod(s[k])).v()); } bool ok = axis < 3; for (size_t a = 0; a < 3; a++) if (a != axis && s[0][a] != s[1][a]) ok = false; S3 a(s[0][0], s[0][1], s[0][2]), b(s[1][0], s[1][1], s[1][2]); size_t tot = prod(s[0]) + prod(s[1]); V d = sym::reals("old", tot), d0 = d, p = d, q = d;
  if (!ok) { ls_check(sym::throws_as<std::runtime_error>([&] { L::concatenate(d.data(), v[0].data(), a, v[1].data(), b, axis); }), "invalid join refused"); ls_check(sym::throws_as<std::runtime_error>([&] { L::concatenate(d.data(), p.data(), {a, b}, axis); }), "invalid join of a list refused"); sym::check_eq(d, d0, "refusal writes nothing"); ls_check(sym::throws_as<std::runtime_error>([&] { L::separate(p.data(), a, q.data(), b, d.data(), axis); }), "invalid separation refused"); ls_check(sym::throws_as<std::runtime_error>([&] { L::separate(p.data(), {a, b}, d.data(), axis); }), "invalid separation into a list refused"); sym::check_eq(p, d0, "refusal writes nothing"); sym::check_eq(q, d0, "refusal writes nothing"); ls_reach("end"); return; }
  Dim o; V e = joined(s, v, axis, o); L::concatenate(d.data(), v[0].data(), a, v[1].data(), b, axis); sym::check_eq(d, e, "joined values"); V x(prod(s[0])), y(prod(s[1])); L::separate(x.data(), a, y.data(), b, d.data(), axis); sym::check_eq(x, v[0], "first part recovered"); sym::check_eq(y, v[1], "second part recovered"); sym::check_eq(d, e, "separation leaves the source unchanged"); ls_reach("end"); }
ENTRY(many) { size_t axis = sym::pick("axis", 0, 2), n = sym::pick("n", 1, 3); Dim base{sym::pick("h", 1, 2), sym::pick("w", 1, 2), sym::pick("c", 1, 2)}; std::vector<Dim> s; std::vector<V> v; std::vector<S3> sh; V all; for (size_t k = 0; k < n; k++) { Dim d = base; if (k) d[axis] = sym::pick("ext", 1, 2); s.push_back(d); v.push_back(sym::reals("v", prod(d)).v()); sh.push_back(S3(d[0], d[1], d[2])); all.insert(all.end(), v[k].begin(), v[k].end()); } Dim o; V e = joined(s, v, axis, o), d(all.size()), back(all.size()); ls_check(L::concatenate(d.data(), all.data(), sh, axis) == d.data(), "destination returned"); sym::check_eq(d, e, "joined values of a list"); L::separate(back.data(), sh, d.data(), axis); sym::check_eq(back, all, "all parts recovered"); ls_reach("end"); }
ENTRY(append) { size_t dims = sym::pick("dims", 1, 3), axis = sym::pick("axis", 0, dims); Dim d; for (size_t k = 0; k < dims; k++) d.push_back(sym::pick("d", 1, k ? 2 : 3)); V dst = sym::reals("old", prod(d)), d0 = dst; if (axis == dims) { V s(8, 0.0); ls_check(sym::throws_as<std::runtime_error>([&] { L::append_check(dst.data(), d, s.data(), 1, axis, 0); }) && sym::throws_as<std::runtime_error>([&] { L::extract_check(dst.data(), d, s.data(), 1, axis, 0); }), "an axis outside the shape is refused"); sym::check_eq(dst, d0, "refusal writes nothing"); ls_reach("end"); return; }
  size_t off = sym::pick("off", 0, d[axis] - 1), len = sym::pick("len", 1, d[axis] - off); Dim s = d; s[axis] = len; V src = sym::reals("src", prod(s)), e = d0; each(s, [&](Dim i) { double x = src[at(s, i)]; i[axis] += off; e[at(d, i)] = x; }); bool chk = sym::flag("checked"); double* r = chk ? L::append_check(dst.data(), d, src.data(), len, axis, off) : L::append(dst.data(), d, src.data(), len, axis, off); ls_check(r == dst.data(), "destination returned"); sym::check_eq(dst, e, "appended values at their place, others untouched"); V back(prod(s)); chk ? L::extract_check(back.data(), s, dst.data(), d[axis], axis, off) : L::extract(back.data(), s, dst.data(), d[axis], axis, off); sym::check_eq(back, src, "extraction undoes appending"); ls_reach("end"); }
ENTRY(large) { size_t axis = sym::pick("axis", 0, 2), n = sym::pick("n", 2, 6); std::vector<Dim> s; std::vector<V> v; std::vector<S3> sh; V all; for (size_t k = 0; k < n; k++) { Dim d{3, 4, 5}; d[axis] = (k * 3 + 2) % 5 + 1; s.push_back(d); v.push_back(sym::reals("v", prod(d)).v()); sh.push_back(S3(d[0], d[1], d[2])); all.insert(all.end(), v[k].begin(), v[k].end()); } Dim o; V e = joined(s, v, axis, o), d(all.size()), back(all.size()); L::concatenate(d.data(), all.data(), sh, axis); sym::check_eq(d, e, "joined values of a list"); L::separate(back.data(), sh, d.data(), axis); sym::check_eq(back, all, "all parts recovered"); if (n == 2) { V d2(all.size()), x(v[0].size()), y(v[1].size()); L::concatenate(d2.data(), v[0].data(), sh[0], v[1].data(), sh[1], axis); sym::check_eq(d2, e, "joined values"); L::separate(x.data(), sh[0], y.data(), sh[1], d2.data(), axis); sym::check_eq(x, v[0], "first part recovered"); sym::check_eq(y, v[1], "second part recovered"); } ls_reach("end"); }
