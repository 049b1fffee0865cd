// P14: slicing, splitting, shuffling and joining data sets
#include "sym.h"
#include "data/dataset.hpp"
//@ bound (large) 23 rows (thorough 40) of 4 values in sequences of 1, 4 and 7: slices between 6 places, every split percentage; a set of 3 sequences of 4 rows of 5 values joined with one of up to 6 along any axis
//@ bound 1..5 rows (quick) / 1..8 rows (thorough) of 1..3 symbolic values, sequence sizes 1..3, every slice range (also reversed and past the end), every real split percentage (also outside 0..1)
//@ bound shuffles of up to 4 rows (quick) / 5 rows (thorough), every outcome of every random draw; joins of two sets of up to 2 sequences of up to 2 rows of up to 2 values (quick) / up to 3x2x3 (thorough), every axis 0..3
//@ assume replacing std::shuffle's generator draws by arbitrary values in range keeps every permutation the library could produce
//@ H_slice t=150 T=800
//@ H_split t=150 T=800
//@ H_join t=150 T=800
using namespace EdgeLearning; using DSet = Dataset<double>; using V = std::vector<double>; using M = std::vector<V>;
struct In { size_t n, fs, ss; M rows; std::set<SizeType> l; };
static In mk(size_t maxn, bool tag = false, bool trim = true) { In x; x.n = sym::pick("n", 1, maxn); x.fs = sym::pick("fs", 1, TIER(2, 3)); x.ss = sym::pick("ss", 1, 3); if (sym::flag("lab")) x.l.insert(x.fs - 1); for (size_t i = 0; i < x.n; i++) { V r = sym::reals("v", x.fs).v(); if (tag) r[0] = (double)i; x.rows.push_back(r); } x.ss = std::min(x.ss, x.n); x.n = x.n / x.ss * x.ss; x.rows.resize(x.n); return x; }
static void expect(const DSet& d, const In& x, size_t a, size_t b, const char* what) { size_t k = b - a, ss = std::min(x.ss, k); k = ss ? k / ss * ss : 0; ls_check(d.size() == k, what); V e; for (size_t i = a; i < a + k; i++) e.insert(e.end(), x.rows[i].begin(), x.rows[i].end()); sym::check_eq(d.data(), e, what); if (k) { std::vector<SizeType> li(x.l.begin(), x.l.end()); ls_check(d.feature_size() == x.fs && d.sequence_size() == ss && d.label_idx() == li, what); } }
ENTRY(slice) { In x = mk(TIER(5, 8)); DSet d(x.rows, x.ss, x.l); size_t a = sym::pick("from", 0, x.n + 2), b = sym::pick("to", 0, x.n + 2); size_t t = std::min(b, x.n); if (a > t) ls_check(sym::throws_as<std::runtime_error>([&] { (void)d.subdata(a, b); }), "a reversed range is refused"); else expect(d.subdata(a, b), x, a, t, "slice"); expect(d, x, 0, x.n, "a slice leaves the source unchanged"); ls_reach("end"); }
ENTRY(split) { In x = mk(TIER(5, 8)); DSet d(x.rows, x.ss, x.l); sym::Real p = sym::real("perc"); double c = p.v; if (c > 1) c = 1; if (c < 0) c = 0; auto s = d.split(p.v); size_t k = s.training_set.size(); ls_check(k % x.ss == 0 && k <= x.n, "first part holds whole sequences"); ls_check_le((double)(k / x.ss), c * (double)x.n / (double)x.ss, "first part is not larger than asked"); ls_check_lt(c * (double)x.n / (double)x.ss, (double)(k / x.ss) + 1, "first part is as large as asked");
  expect(s.training_set, x, 0, k, "first part"); expect(s.testing_set, x, k, x.n, "second part"); ls_obs("k", k);
  auto h = d.subdata(p.v); size_t m = h.size(), cut = 0; while (cut < x.n && (double)(cut + 1) <= c * (double)x.n) cut++; expect(h, x, 0, cut, "leading part"); (void)m; ls_reach("end"); }
ENTRY(shuffle) { In x = mk(TIER(4, 5), true); DSet d(x.rows, x.ss, x.l); RneType g(7); DSet& r = d.shuffle(g); ls_check(&r == &d && d.size() == x.n && d.feature_size() == x.fs && d.sequence_size() == x.ss && d.data().size() == x.n * x.fs, "shuffling keeps the shape"); std::vector<bool> used(x.n, false); for (size_t i = 0; i < x.n; i++) { V e = d.entry(i); size_t t = x.n; for (size_t j = 0; j < x.n; j++) if (e[0] == (double)j) t = j; ls_check(t < x.n, "a shuffled entry is an entry"); if (t >= x.n) return; ls_check(!used[t], "no entry appears twice"); used[t] = true; sym::check_eq(e, x.rows[t], "entries stay whole"); } ls_reach("end"); }
ENTRY(join) { size_t s[2][3]; M f; size_t axis = sym::pick("axis", 0, 3); std::vector<DSet> d; std::vector<V> v; bool lab = sym::flag("lab"), lab2 = sym::pick("lab2", 0, 1) ? !lab : lab; bool compat = axis < 3; for (int k = 0; k < 2; k++) { for (int a = 0; a < 3; a++) s[k][a] = sym::pick("dim", 1, TIER(2, a == 1 ? 2 : 3)); v.push_back(sym::reals("v", s[k][0] * s[k][1] * s[k][2]).v()); std::set<SizeType> l; if (k ? lab2 : lab) l.insert(0); d.push_back(DSet(v[k], s[k][2], s[k][1], l)); } for (size_t a = 0; a < 3; a++) if (a != axis && s[0][a] != s[1][a]) compat = false; if (axis < 2 && lab != lab2) compat = false;
  if (!compat) { ls_check(sym::throws_as<std::runtime_error>([&] { (void)DSet::concatenate(d[0], d[1], axis); }), "incompatible data sets are refused"); ls_reach("end"); return; }
  DSet r = DSet::concatenate(d[0], d[1], axis); size_t o[3] = {s[0][0], s[0][1], s[0][2]}; o[axis] += s[1][axis]; ls_check(r.data().size() == o[0] * o[1] * o[2] && r.feature_size() == o[2] && r.sequence_size() == o[1] && r.size() == o[0] * o[1], "shape of the joined set"); if (axis < 2) ls_check(r.label_idx() == d[0].label_idx(), "labels of the joined set"); else ls_check(r.label_idx().empty(), "labels of a feature-wise joined set");
  for (size_t i = 0; i < o[0]; i++) for (size_t j = 0; j < o[1]; j++) for (size_t k = 0; k < o[2]; k++) { size_t q[3] = {i, j, k}; int w = q[axis] >= s[0][axis]; if (w) q[axis] -= s[0][axis]; ls_check_eq(r.data()[(i * o[1] + j) * o[2] + k], v[w][(q[0] * s[w][1] + q[1]) * s[w][2] + q[2]], "joined value"); } ls_reach("end"); }
ENTRY(empty) { In x = mk(3); DSet d(x.rows, x.ss, x.l), e; size_t axis = sym::pick("axis", 0, 2); expect(DSet::concatenate(e, d, axis), x, 0, x.n, "joining with an empty set"); expect(DSet::concatenate(d, e, axis), x, 0, x.n, "joining with an empty set"); ls_reach("end"); }
ENTRY(large) { In x; x.n = TIER(23, 40); x.fs = 4; x.ss = 1 + 3 * sym::pick("ss", 0, 2); x.l = {1, 3}; for (size_t i = 0; i < x.n; i++) x.rows.push_back(sym::reals("v", x.fs).v()); x.n = x.n / x.ss * x.ss; x.rows.resize(x.n); DSet d(x.rows, x.ss, x.l); if (sym::flag("slice")) { static const size_t at[6] = {0, 1, 7, 12, 20, 39}; size_t a = at[sym::pick("from", 0, 4)], b = at[sym::pick("to", 1, 5)], t = std::min(b, x.n); if (a > t) ls_check(sym::throws_as<std::runtime_error>([&] { (void)d.subdata(a, b); }), "a reversed range is refused"); else expect(d.subdata(a, b), x, a, t, "slice"); expect(d, x, 0, x.n, "a slice leaves the source unchanged"); }
  else { sym::Real p = sym::real("perc", 0, 1); auto s = d.split(p.v); size_t k = s.training_set.size(); ls_check(k % x.ss == 0 && k <= x.n, "first part holds whole sequences"); ls_check_le((double)(k / x.ss), p.v * (double)x.n / (double)x.ss, "first part is not larger than asked"); ls_check_lt(p.v * (double)x.n / (double)x.ss, (double)(k / x.ss) + 1, "first part is as large as asked"); expect(s.training_set, x, 0, k, "first part"); expect(s.testing_set, x, k, x.n, "second part"); } ls_reach("end"); }
ENTRY(join_large) { size_t axis = sym::pick("axis", 0, 2); size_t s[2][3] = {{3, 4, 5}, {3, 4, 5}}; s[1][axis] = sym::pick("ext", 1, 6); std::vector<DSet> d; std::vector<V> v; for (int k = 0; k < 2; k++) { v.push_back(sym::reals("v", s[k][0] * s[k][1] * s[k][2]).v()); d.push_back(DSet(v[k], s[k][2], s[k][1], {2, 4})); } if (axis == 2) d[1] = DSet(v[1], s[1][2], s[1][1]); DSet r = DSet::concatenate(d[0], d[1], axis); size_t o[3] = {3, 4, 5}; o[axis] += s[1][axis]; ls_check(r.data().size() == o[0] * o[1] * o[2] && r.feature_size() == o[2] && r.sequence_size() == o[1] && r.size() == o[0] * o[1], "shape of the joined set"); for (size_t i = 0; i < o[0]; i++) for (size_t j = 0; j < o[1]; j++) for (size_t k = 0; k < o[2]; k++) { size_t q[3] = {i, j, k}; int w = q[axis] >= s[0][axis]; if (w) q[axis] -= s[0][axis]; ls_check_eq(r.data()[(i * o[1] + j) * o[2] + k], v[w][(q[0] * s[w][1] + q[1]) * s[w][2] + q[2]], "joined value"); } ls_reach("end"); }
