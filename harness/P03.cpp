// P03: CSV read fidelity
#include "sym.h"
#include "parser/csv.hpp"
//@ bound files of 1..3 rows and 1..3 columns, every field an arbitrary text (no separator, no line break) of 0..2 bytes (all lengths 0..1, lengths 0..2 for 2x2); separators ',' ';' and tab; declared type lists that are complete, of the wrong length, or contain AUTO
//@ bound (line) rows built from one line of 1..3 fields without a file
//@ bound (wide) files of 40 rows and of 20 columns and of header or data rows (other than the first) of up to 5000 bytes, with one arbitrary byte per row and the rest fixed
//@ assume every row has as many fields as the header; every row but the last ends with a newline, the last one with or without (without, it is not empty)
//@ H_auto t=200
using namespace EdgeLearning; typedef TypeChecker::Type T;
struct File { char sep; size_t rows, cols; std::vector<std::vector<std::string>> f; std::vector<std::string> line; std::string all; };
static File make(size_t maxr, size_t maxc, size_t maxlen, bool seps, bool lens = true) {
  File o; o.sep = seps ? ",;\t"[sym::pick("sep", 0, 2)] : ','; o.rows = sym::pick("rows", 1, maxr); o.cols = sym::pick("cols", 1, maxc);
  for (size_t r = 0; r < o.rows; r++) { o.f.emplace_back(); std::string l; for (size_t c = 0; c < o.cols; c++) { size_t n = lens ? sym::pick("len", 0, maxlen) : (r + 2 * c) % (maxlen + 1); std::string s = sym::text("b", n); for (char x : s) ls_assume((x != o.sep) & (x != '\n')); o.f[r].push_back(s); if (c) l.push_back(o.sep); l += s; } o.line.push_back(l); o.all += l; o.all.push_back('\n'); }
  if (sym::flag("unterminated")) { if (o.line.back().empty()) ls_kill(); o.all.pop_back(); }
  sym::put_file("t.csv", o.all); return o; }
static void dims(const File& o, CSV& csv) { ls_check(csv.rows_size() == o.rows, "number of rows"); ls_check(csv.cols_size() == o.cols, "number of columns"); ls_check(csv.feature_size() == o.cols, "number of features"); ls_check(csv.entries_amount() == o.rows - 1, "number of data rows"); }
static void row(const File& o, const CSVRow& w, size_t r, const std::vector<T>& types, bool fields) {
  ls_check(w.line() == o.line[r], "row text"); ls_check(std::string(w) == o.line[r], "row as text"); ls_check(w.idx() == r, "row index"); ls_check(w.size() == o.cols, "row width"); ls_check(w.empty() == (o.cols == 0), "row emptiness");
  ls_check(w.types() == types, "types of a row"); std::vector<std::string> v = w; ls_check(v.size() == o.cols, "row as list of texts"); for (size_t c = 0; c < o.cols; c++) ls_check(v[c] == o.f[r][c], "field text in the list");
  if (fields) { std::vector<CSVField> q = w; ls_check(q.size() == o.cols, "row as list of fields"); for (size_t c = 0; c < o.cols; c++) { CSVField x = w[c]; ls_check(x.as<std::string>() == o.f[r][c], "field text"); ls_check(x.type() == types[c], "field type"); ls_check(x.idx() == c, "field index"); ls_check(q[c].as<std::string>() == o.f[r][c], "listed field text"); ls_check(q[c].type() == types[c], "listed field type"); ls_check(q[c].idx() == c, "listed field index"); } 
    ls_check(sym::throws([&] { (void)w[o.cols]; }), "a field past the last is refused"); } }
static std::vector<T> infer(const File& o) { std::vector<T> t; for (size_t c = 0; c < o.cols; c++) t.push_back(o.rows > 1 ? TypeChecker::parse(o.f[1][c]) : T::NONE); return t; }
ENTRY(auto) { File o = make(TIER(2, 3), TIER(2, 3), 1, true, true); CSV csv = o.sep == ',' ? CSV("t.csv") : CSV("t.csv", {T::AUTO}, o.sep); dims(o, csv); auto t = infer(o); ls_check(csv.types() == t, "inferred types"); row(o, csv.header(), 0, t, true); size_t r = sym::pick("r", 0, o.rows - 1); row(o, csv[r], r, t, true); ls_obs("rows", csv.rows_size()); ls_reach("end"); }
ENTRY(longer) { File o = make(3, TIER(2, 3), TIER(2, 3), false, false); CSV csv("t.csv"); dims(o, csv); auto t = infer(o); ls_check(csv.types() == t, "inferred types"); for (size_t r = 0; r < o.rows; r++) row(o, csv[r], r, t, true); ls_reach("end"); }
ENTRY(declared) { File o = make(3, 2, 1, true, false); static const T all[4] = {T::INT, T::FLOAT, T::BOOL, T::STRING}; std::vector<T> d; for (size_t c = 0; c < o.cols; c++) d.push_back(all[sym::pick("type", 0, 3)]);
  size_t k = sym::pick("kind", 0, 2); std::vector<T> w = d; if (k == 1) { d.push_back(T::INT); w = infer(o); } else if (k == 2) { d[sym::pick("auto", 0, o.cols - 1)] = T::AUTO; w = infer(o); }
  CSV csv("t.csv", d, o.sep); dims(o, csv); ls_check(csv.types() == w, "declared types"); for (size_t r = 0; r < o.rows; r++) row(o, csv[r], r, w, true); row(o, csv.header(), 0, w, true); ls_reach("end"); }
ENTRY(whole) { File o = make(3, 2, 2, true, false); CSV csv("t.csv", {T::AUTO}, o.sep); std::vector<std::string> l = csv; ls_check(l.size() == o.rows, "file as lines"); for (size_t r = 0; r < o.rows; r++) ls_check(l[r] == o.line[r], "line of the file");
  std::vector<std::vector<std::string>> m = csv; ls_check(m == o.f, "file as lists of texts"); ls_check(csv.to_mat<std::string>() == o.f, "file as a matrix of texts"); std::vector<CSVRow> v = csv; ls_check(v.size() == o.rows, "file as rows"); auto t = infer(o); for (size_t r = 0; r < o.rows; r++) row(o, v[r], r, t, false); ls_reach("end"); }
ENTRY(wide) { File o; o.sep = ','; size_t k = sym::pick("shape", 0, TIER(4, 4)); o.rows = k == 0 ? 40 : k == 1 ? 3 : 4; o.cols = k == 1 ? 20 : 2; size_t at = k > 1 ? 2 * sym::pick("at", 0, 1) : 0; for (size_t r = 0; r < o.rows; r++) { o.f.emplace_back(); std::string l; for (size_t c = 0; c < o.cols; c++) { std::string s = c == 0 ? sym::text("b", 1) : std::to_string(r * 10 + c); if (c == 0) ls_assume((s[0] != ',') & (s[0] != '\n')); if (k > 1 && r == at) s += std::string(k == 2 ? 150 : k == 3 ? 1100 : TIER(5000, 9000), c ? 'y' : 'x'); o.f[r].push_back(s); if (c) l.push_back(','); l += s; } o.line.push_back(l); o.all += l; o.all.push_back('\n'); } if (sym::flag("unterminated")) o.all.pop_back(); sym::put_file("t.csv", o.all);
  CSV csv("t.csv"); dims(o, csv); auto t = infer(o); ls_check(csv.types() == t, "inferred types"); row(o, csv.header(), 0, t, k == 1); for (size_t r = o.rows; r-- > 0;) { auto w = csv[r]; row(o, w, r, t, k == 1); std::vector<std::string> v = w; ls_check(v == o.f[r], "field texts"); } std::vector<std::string> l = csv; ls_check(l == o.line, "file as lines"); ls_reach("end"); }
// rows and fields made from a line of text, without a file
ENTRY(line) { size_t cols = sym::pick("cols", 1, 3); char sep = ",;\t"[sym::pick("sep", 0, 2)]; File o; o.sep = sep; o.rows = 1; o.cols = cols; o.f.emplace_back(); std::string l; for (size_t c = 0; c < cols; c++) { size_t n = sym::pick("len", 0, TIER(1, 2)); std::string s = sym::text("b", n); for (char x : s) ls_assume((x != sep) & (x != '\n')); o.f[0].push_back(s); if (c) l.push_back(sep); l += s; } o.line.push_back(l); std::vector<T> t(cols, T::STRING); t[0] = T::INT;
  std::vector<T> nt = t; CSVRow a(l, 0, t, sep), b(l, 7, cols, t, sep), none(nt, sep); row(o, a, 0, t, true); ls_check(b.idx() == 7 && b.size() == cols && b.line() == l, "row made with its width"); ls_check(none.size() == 0 && none.empty() && none.line().empty() && none.idx() == 0, "empty row"); ls_check(a == b && !(a != b), "rows of the same text are equal"); ls_check((a == none) == l.empty() && (a != none) == !l.empty(), "rows of different text differ"); CSVRow k(a); row(o, k, 0, t, true); std::vector<T> u(cols, T::BOOL); CSVRow m("x|y", 3, u, '|'); m = a; row(o, m, 0, t, true); ls_check(sym::throws([&] { (void)none[0]; }), "a field of an empty row is refused"); ls_reach("end"); }
ENTRY(missing) { ls_check(sym::throws([] { CSV c("absent.csv"); }), "a file that cannot be opened is refused"); ls_reach("end"); }
