// P05: numeric CSV entries
#include "sym.h"
#include "parser/csv.hpp"
//@ bound (large) 12 rows (thorough 30) of 7 columns, one field in five with arbitrary digits
//@ bound headers with 1..3 columns, 1..2 (quick) / 1..3 (thorough) data rows; every field a numeral of shape [-]d, [-]d.d, dd, .d, dEd or (missing entries) empty/non-numeric, with arbitrary digits; every label column set; the last row with or without its newline
using namespace EdgeLearning;
static char d(double& v) { char c = sym::chr("d"); ls_assume((unsigned char)(c - '0') < 10); v = (double)(c - '0'); return c; }
struct F { std::string s; double v; };
static F num(size_t shape) { F f; double a = 0, b = 0; switch (shape) {
  case 0: f.s.push_back(d(a)); f.v = a; break; case 1: f.s = "-"; f.s.push_back(d(a)); f.v = -a; break; case 2: f.s.push_back(d(a)); f.s += "."; f.s.push_back(d(b)); f.v = a + b / 10; break;
  case 3: f.s.push_back(d(a)); f.s.push_back(d(b)); f.v = a * 10 + b; break; case 4: f.s = "-."; f.s.push_back(d(b)); f.v = -b / 10; break; case 5: f.s.push_back(d(a)); f.s += "e-2"; f.v = a / 100; break; default: f.s.push_back(d(a)); f.s += ".5E1"; f.v = a * 10 + 5; } return f; }
ENTRY(entries) {
  size_t cols = sym::pick("cols", 1, 3), rows = sym::pick("rows", 1, TIER(2, 3)); size_t lab = sym::pick("labels", 0, ((size_t)1 << cols) - 1); std::set<SizeType> li; for (size_t c = 0; c < cols; c++) if (lab >> c & 1) li.insert(c);
  std::string a; for (size_t c = 0; c < cols; c++) { if (c) a += ","; a += (char)('a' + c); } a += "\n"; std::vector<std::vector<double>> v; size_t base = sym::pick("shape", 0, 6);
  for (size_t r = 0; r < rows; r++) { v.emplace_back(); for (size_t c = 0; c < cols; c++) { F f = num((base + r * 3 + c * 2) % 7); if (c) a += ","; a += f.s; v[r].push_back(f.v); } a += "\n"; }
  if (sym::flag("unterminated")) a.pop_back(); sym::put_file("t.csv", a); CSV csv("t.csv", {TypeChecker::Type::AUTO}, ',', li);
  ls_check(csv.entries_amount() == rows, "one entry per data row"); ls_check(csv.feature_size() == cols, "one feature per column"); ls_check(csv.labels_idx() == li, "label columns are the declared ones");
  for (size_t r = 0; r < rows; r++) { auto e = csv.entry(r); sym::check_eq(e, v[r], "entry values"); for (double x : e) ls_obsr("e", x); }
  auto all = csv.data_to_encoding(); std::vector<double> w; for (auto& x : v) w.insert(w.end(), x.begin(), x.end()); sym::check_eq(all, w, "data in default encoding");
  auto m = csv.to_mat<double>(); ls_check(m.size() == rows + 1, "matrix rows"); for (size_t r = 0; r < rows; r++) sym::check_eq(m[r + 1], v[r], "matrix row");
  std::vector<double> flat = csv; ls_check(flat.size() == (rows + 1) * cols, "file as one list of numbers"); flat.erase(flat.begin(), flat.begin() + (long)cols); sym::check_eq(flat, w, "numbers of the data rows"); std::vector<float> row = csv[rows]; for (size_t c = 0; c < cols; c++) ls_check_eq(row[c], (float)v[rows - 1][c], "row in single precision"); ls_check(csv.encoding_feature_size() == cols, "encoded width"); ls_check(csv.encoding_labels_idx() == li, "encoded labels"); ls_reach("end"); }
ENTRY(missing) { // fields without any numeral read as zero, the others keep their values
  size_t cols = sym::pick("cols", 1, 3), hole = sym::pick("hole", 0, cols - 1); std::string a = "h"; for (size_t c = 1; c < cols; c++) a += ",h"; a += "\n"; std::vector<double> v; std::string kind = sym::flag("word") ? "na" : "";
  for (size_t c = 0; c < cols; c++) { F f = num(c); if (c == hole) { f.s = kind; f.v = 0; } if (c) a += ","; a += f.s; v.push_back(f.v); } a += "\n"; sym::put_file("t.csv", a); CSV csv("t.csv"); auto e = csv.entry(0); sym::check_eq(e, v, "entry with a missing value");
  ls_check_eq(csv[1][hole].as<double>(), 0, "field without a numeral"); ls_reach("end"); }
ENTRY(large) { size_t cols = 7, rows = TIER(12, 30); std::set<SizeType> li{1, 5, 6}; std::string a = "h"; for (size_t c = 1; c < cols; c++) a += ",h"; a += "\n"; std::vector<std::vector<double>> v; for (size_t r = 0; r < rows; r++) { v.emplace_back(); for (size_t c = 0; c < cols; c++) { F f; if ((r + c) % 5 == 0) f = num((r + c * 2) % 7); else { f.s = std::to_string(r * 100 + c); f.v = (double)(r * 100 + c); } if (c) a += ","; a += f.s; v[r].push_back(f.v); } a += "\n"; } if (sym::flag("unterminated")) a.pop_back(); sym::put_file("t.csv", a); CSV csv("t.csv", {TypeChecker::Type::AUTO}, ',', li); ls_check(csv.entries_amount() == rows && csv.feature_size() == cols && csv.labels_idx() == li, "entries, features and labels"); bool back = sym::flag("backwards"); for (size_t i = 0; i < rows; i++) { size_t r = back ? rows - 1 - i : i; sym::check_eq(csv.entry(r), v[r], "entry values"); } std::vector<double> w; for (auto& x : v) w.insert(w.end(), x.begin(), x.end()); sym::check_eq(csv.data_to_encoding(), w, "data in default encoding"); ls_reach("end"); }
