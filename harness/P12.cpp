// P12: one-hot encoding of parsed data sets
#include "sym.h"
#include "parser/parser.hpp"
//@ bound (large) 13 rows (thorough 20) of 9 columns with 1 to 3 label columns of up to 13 classes, one label value and every feature symbolic
//@ bound tables of 1..3 rows and 1..3 columns (quick) / 1..4 rows and 1..4 columns (thorough) with every value symbolic (finite reals), every label-column set (more than 2 label columns only for up to 2 rows)
//@ H_onehot t=200 T=850
using namespace EdgeLearning;
struct Tab : DatasetParser { std::vector<std::vector<double>> d; size_t cols = 0; std::set<SizeType> l; std::vector<NumType> entry(SizeType i) override { return d.at(i); } SizeType entries_amount() const override { return d.size(); } SizeType feature_size() const override { return cols; } std::set<SizeType> labels_idx() const override { return l; } };
static Tab tab(size_t R, size_t C, size_t maxlab) { Tab t; size_t rows = sym::pick("rows", 1, R); t.cols = sym::pick("cols", 1, C); size_t s = sym::pick("labels", 0, ((size_t)1 << t.cols) - 1); for (size_t c = 0; c < t.cols; c++) if (s >> c & 1) t.l.insert(c); if (t.l.size() > maxlab && rows > 2) ls_kill(); for (size_t r = 0; r < rows; r++) t.d.push_back(sym::reals("v", t.cols).v()); return t; }
static void check(Tab& t) { auto e = DatasetParser::LabelEncoding::ONE_HOT_ENCODING; size_t rows = t.d.size(); std::vector<std::vector<double>> want(rows); size_t feat = t.cols - t.l.size();
  for (size_t r = 0; r < rows; r++) for (size_t c = 0; c < t.cols; c++) if (!t.l.count(c)) want[r].push_back(t.d[r][c]);
  for (size_t c : t.l) { std::vector<double> u; for (auto& row : t.d) { bool seen = false; for (double x : u) seen = seen || x == row[c]; if (!seen) u.push_back(row[c]); } auto uq = t.unique(c); ls_check(uq.size() == u.size(), "distinct values of a column"); auto um = t.unique_map(c);
    for (size_t r = 0; r < rows; r++) { size_t rank = 0; for (double x : u) if (x < t.d[r][c]) rank++; ls_check(um.count(t.d[r][c]) == 1 && um[t.d[r][c]] == rank, "rank of a label value"); for (size_t k = 0; k < u.size(); k++) want[r].push_back(k == rank ? 1 : 0); } }
  size_t w = want[0].size(); ls_check(t.encoding_feature_size(e) == w, "encoded width"); auto got = t.data_to_encoding(e); ls_check(got.size() == w * rows, "encoded size"); for (size_t r = 0; r < rows; r++) for (size_t k = 0; k < w; k++) ls_check_eq(got[r * w + k], want[r][k], k < feat ? "feature columns keep value and order" : "one-hot columns");
  std::set<SizeType> li; for (size_t k = feat; k < w; k++) li.insert(k); ls_check(t.encoding_labels_idx(e) == li, "label columns of the encoding"); ls_obs("w", w); ls_reach("end"); }
ENTRY(onehot) { Tab t = tab(TIER(3, 4), TIER(3, 4), TIER(2, 2)); check(t); }
ENTRY(plain) { Tab t = tab(3, 3, 9); auto got = t.data_to_encoding(); ls_check(got.size() == t.cols * t.d.size() && t.encoding_feature_size() == t.cols && t.encoding_labels_idx() == t.l, "default encoding keeps the shape"); for (size_t r = 0; r < t.d.size(); r++) for (size_t k = 0; k < t.cols; k++) ls_check_eq(got[r * t.cols + k], t.d[r][k], "default encoding keeps the values"); ls_reach("end"); }
ENTRY(large) { Tab t; t.cols = 9; size_t rows = TIER(13, 20), set = sym::pick("labels", 0, 3); t.l = set == 0 ? std::set<SizeType>{0} : set == 1 ? std::set<SizeType>{8} : set == 2 ? std::set<SizeType>{2, 7} : std::set<SizeType>{1, 4, 5}; size_t at = sym::pick("at", 0, 2) * (rows / 2 - 1); double v = sym::real("v").v; bool one = true; for (size_t r = 0; r < rows; r++) { std::vector<double> row = sym::reals("f", t.cols); size_t k = 0; for (size_t c : t.l) { row[c] = one && r == at && k == 0 ? v : (double)((r * 5 + k) % (k ? 3 : 12)) - 3; k++; } t.d.push_back(row); } check(t); }
