// P13: data-set views
#include "sym.h"
#include "data/dataset.hpp"
//@ bound (large) 6 rows (thorough 12) and more of 6..7 columns in sequences of 1, 3 and 5, four label sets, from flat data and from a list of rows
//@ bound flat data of 0..8 (quick) / 0..12 (thorough) symbolic reals, feature and sequence sizes 0..4, every label-column set over 4 columns (one index may be out of range), one later change of sequence size or label set
//@ bound row and sequence lists: 0..3 rows of 0..3 values (ragged) (quick) / 0..4 rows (thorough); 0..2 sequences of 0..2 rows of 0..2 values (ragged) (quick) / of 0..3 values, thorough
//@ H_flat t=100 T=600
//@ H_rows t=100 T=600
//@ H_cube t=100 T=800
using namespace EdgeLearning; using DSet = Dataset<double>; using V = std::vector<double>; using M = std::vector<V>;
static std::set<SizeType> lab(const char* n, size_t c) { size_t s = sym::pick(n, 0, ((size_t)1 << (c + 1)) - 1); std::set<SizeType> o; for (size_t i = 0; i <= c; i++) if (s >> i & 1) o.insert(i == c ? 9 : i); return o; }
static V row_of(const V& r, const std::set<SizeType>& l, bool labels) { V o; for (size_t i = 0; i < r.size(); i++) if ((l.count(i) != 0) == labels) o.push_back(r[i]); return o; }
static V flat(const M& m, size_t a, size_t b) { V o; for (size_t i = a; i < b; i++) o.insert(o.end(), m[i].begin(), m[i].end()); return o; }
static void views(const DSet& d, const M& rows, size_t fs, size_t ss, const std::set<SizeType>& l) { size_t n = rows.size(); M in, la; std::vector<SizeType> li, ii; for (size_t c = 0; c < fs; c++) (l.count(c) ? li : ii).push_back(c);
  ls_check(d.size() == n, "number of entries"); ls_check(d.feature_size() == fs, "feature size"); ls_check(d.sequence_size() == ss, "sequence size"); ls_check(d.label_idx() == li && d.input_idx() == ii, "label and input columns");
  sym::check_eq(d.data(), flat(rows, 0, n), "stored data"); ls_check(d.empty() == (n * fs == 0), "emptiness");
  for (size_t i = 0; i < n; i++) { in.push_back(row_of(rows[i], l, false)); la.push_back(row_of(rows[i], l, true)); sym::check_eq(d.entry(i), rows[i], "entry"); sym::check_eq(d.input(i), in[i], "input"); sym::check_eq(d.label(i), la[i], "label"); }
  ls_check(d.entry(n).empty() && d.input(n).empty() && d.label(n).empty(), "no entry past the end");
  for (size_t i = 0; ss && i < n / ss; i++) { sym::check_eq(d.entry_seq(i), flat(rows, i * ss, i * ss + ss), "sequence"); sym::check_eq(d.inputs_seq(i), flat(in, i * ss, i * ss + ss), "inputs of a sequence"); sym::check_eq(d.labels_seq(i), flat(la, i * ss, i * ss + ss), "labels of a sequence"); }
  if (ss) ls_check(d.entry_seq(n / ss).empty() && d.inputs_seq(n / ss).empty() && d.labels_seq(n / ss).empty(), "no sequence past the end");
  auto I = d.inputs(), L = d.labels(); sym::check_eq(I.data(), flat(in, 0, n), "inputs data set"); sym::check_eq(L.data(), flat(la, 0, n), "labels data set"); if (n * ii.size()) ls_check(I.feature_size() == ii.size() && I.size() == n && I.sequence_size() == ss, "shape of the inputs data set"); if (n * li.size()) ls_check(L.feature_size() == li.size() && L.size() == n && L.sequence_size() == ss, "shape of the labels data set"); }
static void all(DSet& d, M rows, size_t fs, size_t ss, std::set<SizeType> l, size_t mode) { views(d, rows, fs, ss, l);
  if (mode == 1) { size_t s = sym::pick("newseq", 0, 3); d.sequence_size(s); ss = std::min(s, rows.size()); rows.resize(ss ? rows.size() / ss * ss : 0); views(d, rows, fs, ss, l); }
  if (mode == 2) { l = lab("newlab", 3); d.label_idx(l); views(d, rows, fs, ss, l); }
  ls_obs("n", rows.size()); ls_reach("end"); }
ENTRY(flat) { size_t n = sym::pick("n", 0, TIER(8, 12)), fs = sym::pick("fs", 0, 4), ss = sym::pick("ss", 0, 4), mode = sym::pick("mode", 0, 2); auto l = mode == 2 ? std::set<SizeType>{1} : lab("lab", std::min(fs, (size_t)TIER(2, 4))); V v = sym::reals("v", n); DSet d(v, fs, ss, l);
  size_t f = std::min(fs, n), s = std::min(ss, n / std::max(f, (size_t)1)); M rows; if (f && s) for (size_t i = 0; i < n / (f * s) * s; i++) rows.push_back(V(v.begin() + (long)(i * f), v.begin() + (long)(i * f + f))); all(d, rows, f, s, l, mode); }
ENTRY(rows) { size_t n = sym::pick("n", 0, TIER(3, 4)), ss = sym::pick("ss", 0, 3), mode = sym::pick("mode", 0, 2); auto l = mode == 2 ? std::set<SizeType>{1} : lab("lab", 2); M m, rows; size_t f = 9; for (size_t i = 0; i < n; i++) { size_t k = sym::pick("len", 0, 3); m.push_back(sym::reals("v", k).v()); f = std::min(f, k); } if (!n) f = 0; DSet d(m, ss, l);
  size_t s = std::min(ss, n); if (s) for (size_t i = 0; i < n / s * s; i++) rows.push_back(V(m[i].begin(), m[i].begin() + (long)f)); all(d, rows, f, s, l, mode); }
ENTRY(cube) { size_t n = sym::pick("n", 1, 2), mode = sym::pick("mode", 0, 2); auto l = mode == 2 ? std::set<SizeType>{1} : lab("lab", 2); std::vector<M> c; M rows; size_t f = 9, s = 9; for (size_t i = 0; i < n; i++) { M m; size_t k = sym::pick("seq", 1, TIER(2, 3)); s = std::min(s, k); for (size_t j = 0; j < k; j++) { size_t q = sym::pick("len", 0, TIER(2, 2)); m.push_back(sym::reals("v", q).v()); f = std::min(f, q); } c.push_back(m); } DSet d(c, l);
  for (auto& m : c) for (size_t j = 0; j < s; j++) rows.push_back(V(m[j].begin(), m[j].begin() + (long)f)); all(d, rows, f, s, l, mode); }
ENTRY(parse) { struct T : DatasetParser { M d; std::set<SizeType> l; std::vector<NumType> entry(SizeType i) override { return d.at(i); } SizeType entries_amount() const override { return d.size(); } SizeType feature_size() const override { return 3; } std::set<SizeType> labels_idx() const override { return l; } } t; size_t n = sym::pick("n", 1, 3), ss = sym::pick("ss", 1, 2); t.l = lab("lab", 2); t.l.erase(9); for (size_t i = 0; i < n; i++) t.d.push_back(sym::reals("v", 3).v()); auto d = DSet::parse(t, DatasetParser::LabelEncoding::DEFAULT_ENCODING, ss); size_t s = std::min(ss, n); M rows = t.d; rows.resize(n / s * s); views(d, rows, 3, s, t.l); DSet e; views(e, {}, 0, 0, {}); auto q = DSet::parse(t); views(q, t.d, 3, 1, t.l); ls_reach("end"); }
ENTRY(large) { size_t fs = sym::pick("fs", 6, 7), ss = 1 + 2 * sym::pick("ss", 0, 2), n = TIER(43, 90), mode = sym::pick("mode", 0, 2), k = sym::pick("lab", 0, 3); std::set<SizeType> l; if (k == 1) l = {0, fs - 1}; if (k == 2) l = {4, 5}; if (k == 3) for (size_t c = 1; c < fs; c++) l.insert(c); bool list = sym::flag("list"); V v = sym::reals("v", n); M all_rows, rows; for (size_t i = 0; i + fs <= n; i += fs) all_rows.push_back(V(v.begin() + (long)i, v.begin() + (long)(i + fs))); rows = all_rows; rows.resize(rows.size() / ss * ss); if (list) { DSet d(all_rows, ss, l); all(d, rows, fs, ss, l, mode); } else { DSet d(v, fs, ss, l); all(d, rows, fs, ss, l, mode); } }
