// P15: min-max normalisation
#include "sym.h"
#include "data/dataset.hpp"
//@ bound (large) 12 rows (thorough 20) of 5 columns with one symbolic value, own and given ranges, all columns or two of them
//@ bound 2..4 rows (quick) / 2..5 rows (thorough) of 1..3 symbolic reals, sequence size 1..2, every subset of normalised columns for explicit ranges
//@ assume no column is constant and an explicit range is not empty
//@ H_own t=200 T=850 f=0
//@ H_given t=100 T=500
using namespace EdgeLearning; using DSet = Dataset<double>; using V = std::vector<double>; using M = std::vector<V>;
ENTRY(own) { size_t n = sym::pick("n", 2, TIER(4, 5)), fs = sym::pick("fs", 1, TIER(2, 2)), ss = sym::pick("ss", 1, 2); M m; for (size_t i = 0; i < n; i++) m.push_back(sym::reals("v", fs).v()); n = n / ss * ss; m.resize(n); for (size_t c = 0; c < fs; c++) { bool differ = false; for (size_t i = 1; i < n; i++) differ |= m[i][c] != m[0][c]; ls_assume(differ); } DSet d(m, ss); DSet& r = d.min_max_normalization(); ls_check(&r == &d && d.size() == n && d.feature_size() == fs && d.sequence_size() == ss, "shape kept");
  for (size_t c = 0; c < fs; c++) { double lo = m[0][c], hi = m[0][c]; for (size_t i = 1; i < n; i++) { lo = std::min(lo, m[i][c]); hi = std::max(hi, m[i][c]); } for (size_t i = 0; i < n; i++) { double y = d.data()[i * fs + c]; ls_check_eq(y * (hi - lo), m[i][c] - lo, "affine map onto the unit interval"); ls_check_le(0, y, "not below zero"); ls_check_le(y, 1, "not above one"); } } ls_obsr("y", d.data()[0]); ls_reach("end"); }
ENTRY(given) { size_t n = sym::pick("n", 1, 3), fs = sym::pick("fs", 1, 3), ss = sym::pick("ss", 1, 2); M m; for (size_t i = 0; i < n; i++) m.push_back(sym::reals("v", fs).v()); ss = std::min(ss, n); n = n / ss * ss; m.resize(n); DSet d(m, ss); double a = sym::real("min").v, b = sym::real("max").v; size_t sel = sym::pick("cols", 0, ((size_t)1 << fs) - 1); std::vector<SizeType> cols; for (size_t c = fs; c-- > 0;) if (sel >> c & 1) cols.push_back(c);
  if (a == b) { ls_check(sym::throws_as<std::runtime_error>([&] { d.min_max_normalization(a, b, cols); }), "an empty range is refused"); for (size_t i = 0; i < n; i++) sym::check_eq(d.entry(i), m[i], "unchanged after refusal"); ls_reach("end"); return; }
  DSet& r = d.min_max_normalization(a, b, cols); ls_check(&r == &d && d.size() == n && d.feature_size() == fs && d.sequence_size() == ss, "shape kept"); for (size_t i = 0; i < n; i++) for (size_t c = 0; c < fs; c++) { double y = d.data()[i * fs + c]; if (sel && !(sel >> c & 1)) ls_check_eq(y, m[i][c], "column not selected is unchanged"); else ls_check_eq(y, (m[i][c] - a) / (b - a), "value mapped by the given range"); } ls_obsr("y", d.data()[0]); ls_reach("end"); }
ENTRY(empty) { DSet d; ls_check(!sym::throws([&] { d.min_max_normalization(); d.min_max_normalization(0, 1); }), "an empty set stays empty"); ls_check(d.empty(), "empty"); ls_reach("end"); }
ENTRY(large) { size_t n = TIER(12, 20), fs = 5; bool own = sym::flag("own"); size_t ss = sym::pick("ss", 1, 2); M m; size_t at = sym::pick("at", 0, 2) * (n / 2); at = std::min(at, n - 1); size_t col = sym::pick("col", 0, fs - 1); double v = sym::real("v").v; for (size_t i = 0; i < n; i++) { V r = sym::mostly(fs, 9, 0); for (size_t c = 0; c < fs; c++) r[c] += (double)((i * 5 + c) % 7); if (i == at) r[col] = v; m.push_back(r); } DSet d(m, ss); if (own) { d.min_max_normalization(); for (size_t c = 0; c < fs; c++) { double lo = m[0][c], hi = m[0][c]; for (size_t i = 1; i < n; i++) { lo = std::min(lo, m[i][c]); hi = std::max(hi, m[i][c]); } for (size_t i = 0; i < n; i++) ls_check_eq(d.data()[i * fs + c] * (hi - lo), m[i][c] - lo, "affine map onto the unit interval"); } }
  else { double a = sym::real("min").v, b = sym::real("max").v; ls_assume(a < b); std::vector<SizeType> cols; if (sym::flag("some")) cols = {4, 1}; d.min_max_normalization(a, b, cols); for (size_t i = 0; i < n; i++) for (size_t c = 0; c < fs; c++) { double y = d.data()[i * fs + c]; if (!cols.empty() && c != 4 && c != 1) ls_check_eq(y, m[i][c], "column not selected is unchanged"); else ls_check_eq(y, (m[i][c] - a) / (b - a), "value mapped by the given range"); } } ls_reach("end"); }
