// P02: text <-> value conversion
#include "sym.h"
#include "parser/type_checker.hpp"
//@ bound texts of 0..4 (quick) / 0..5 (thorough) arbitrary bytes for int, long, short and double; int/long/short range edges: every text made of the limit's leading digits and 2..4 arbitrary digits; bool: every text of 0..5 (7) bytes; integer round trip: every value of 16 (quick) / 22 (thorough) bits and the type limits
//@ H_int t=120
//@ H_double t=150
using namespace EdgeLearning;
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool dig(char c) { return (unsigned char)(c - '0') < 10; }
// optional leading white space, optional sign, digits to the end
template <class N> static bool wantInt(const std::string& s, N& v) {
  size_t i = 0; while (i < s.size() && sp(s[i])) i++; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  if (i == s.size()) return false; __int128 x = 0; for (; i < s.size(); i++) { if (!dig(s[i])) return false; x = x * 10 + (s[i] - '0'); }
  if (neg) x = -x; if (x < (__int128)std::numeric_limits<N>::min() || x > (__int128)std::numeric_limits<N>::max()) return false; v = (N)x; return true; }
template <class N> static void cmpInt(const std::string& s, const char* w) { N a = 7, b = 7; bool ok = TypeChecker::parse<N>(s, a), want = wantInt<N>(s, b); TypeChecker tc; N c = 7; bool ok2 = tc(s, c);
  ls_obs(w, ok); if (ok) ls_obs("v", (uint64_t)(long)a); ls_check(ok == want, "integer conversion succeeds exactly for whole representable numerals"); if (ok) { ls_check(a == b, "integer value"); } ls_check(ok2 == ok, "operator() agrees"); if (ok && ok2) ls_check(c == b, "operator() value"); }
ENTRY(int) { std::string s = sym::text("c", sym::pick("n", 0, TIER(4, 5))); switch (sym::pick("ty", 0, 2)) { case 0: cmpInt<int>(s, "int"); break; case 1: cmpInt<long>(s, "long"); break; default: cmpInt<short>(s, "short"); } ls_reach("end"); }
static std::string digits(size_t n) { std::string s; for (size_t i = 0; i < n; i++) { char c = sym::chr("d"); ls_assume(dig(c)); s.push_back(c); } return s; }
ENTRY(range) {
  bool neg = sym::flag("neg"); size_t k = sym::pick("k", 0, 1); std::string p = neg ? "-" : "";
  switch (sym::pick("ty", 0, 2)) { case 0: cmpInt<int>(p + "214748" + digits(4 + k), "int"); break; case 1: cmpInt<long>(p + "92233720368547758" + digits(2 + k), "long"); break; default: cmpInt<short>(p + "32" + digits(3 + k), "short"); }
  ls_reach("end"); }
// [ws]* [+-]? (d+ .? d* | . d+) ([eE] [+-]? d+)?
static bool wantDouble(const std::string& s, double& v) {
  size_t i = 0, n = s.size(); while (i < n && sp(s[i])) i++; bool neg = false; if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  double m = 0; int ex = 0, nd = 0; while (i < n && dig(s[i])) { m = m * 10 + (s[i++] - '0'); nd++; }
  if (i < n && s[i] == '.') { i++; while (i < n && dig(s[i])) { m = m * 10 + (s[i++] - '0'); ex--; nd++; } } if (!nd) return false;
  if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; bool en = false; if (i < n && (s[i] == '-' || s[i] == '+')) en = s[i++] == '-'; int e = 0, ned = 0; while (i < n && dig(s[i])) { e = e * 10 + (int)ls_concretize((uint64_t)(s[i++] - '0')); ned++; } if (!ned) return false; ex += en ? -e : e; }
  if (i != n) return false; double t = 1; for (int k = 0; k < (ex < 0 ? -ex : ex); k++) t *= 10; m = ex < 0 ? m / t : m * t; v = neg ? -m : m; return true; }
ENTRY(double) {
  std::string s = sym::text("c", sym::pick("n", 0, TIER(4, 5))); double a = 7, b = 7; bool ok = TypeChecker::parse<double>(s, a), want = wantDouble(s, b); ls_obs("ok", ok);
  ls_check(ok == want, "real conversion succeeds exactly for whole numerals"); if (ok) { ls_obsr("v", a); ls_check_eq(a, b, "real value"); } ls_reach("end"); }
ENTRY(bool) { std::string s = sym::text("c", sym::pick("n", 0, TIER(5, 7))); bool a = true; bool ok = TypeChecker::parse<bool>(s, a); ls_obs("a", a); bool t = (s == "true") | (s == "1"); ls_check(ok, "conversion to bool succeeds"); ls_check(a == t, "bool is true exactly for true and 1"); bool z = false; TypeChecker()(s, z); ls_check(z == t, "bool whatever the previous value"); ls_reach("end"); }
ENTRY(text) { std::string s = sym::text("c", sym::pick("n", 0, TIER(5, 20))), r = "x"; bool ok = TypeChecker::parse<std::string>(s, r); ls_check(ok, "conversion to text succeeds"); ls_check(r == s, "conversion to text is the identity"); ls_reach("end"); }
template <class N> static void trip(N v) { std::string s = convert<N>(v); N r = 7; bool ok = TypeChecker::parse<N>(s, r); ls_check(ok, "the text of an integer converts back"); if (ok) ls_check(r == v, "integer -> text -> integer"); ls_check(TypeChecker()(v) == s, "operator() writes the same text"); }
ENTRY(trip_int) { int w = TIER(16, 22); int v = (int)(ls_sym("v", (unsigned)w)) - (1 << (w - 1)); trip<int>(v); ls_reach("end"); }
ENTRY(trip_limits) { switch (sym::pick("k", 0, 5)) { case 0: trip<int>(std::numeric_limits<int>::max()); break; case 1: trip<int>(std::numeric_limits<int>::min()); break; case 2: trip<long>(std::numeric_limits<long>::max()); break; case 3: trip<long>(std::numeric_limits<long>::min()); break; case 4: trip<size_t>(std::numeric_limits<size_t>::max()); break; default: trip<short>(-32768); } ls_reach("end"); }
ENTRY(trip_bool) { bool v = sym::flag("v"); std::string s = convert<bool>(v); ls_check(s == (v ? "true" : "false"), "text of a bool"); bool r = !v; ls_check(TypeChecker::parse<bool>(s, r), "bool text converts back"); ls_check(r == v, "bool -> text -> bool"); ls_reach("end"); }
