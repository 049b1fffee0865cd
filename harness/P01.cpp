// P01: inferred type of a text field
#include "sym.h"
#include "parser/type_checker.hpp"
//@ bound every text of 0..8 (quick) / 0..14 (thorough) arbitrary bytes for the type; lists of 0..3 texts of 0..2 bytes
//@ H_type t=200
//@ H_list t=100
using namespace EdgeLearning; typedef TypeChecker::Type T;
// the documented grammar, written as hand-made deterministic scanners
static bool dig(char c) { return (unsigned char)(c - '0') < 10; }
static bool sgn(char c) { return (c == '+') | (c == '-'); }
static bool isInt(const std::string& s) { // [+-]? (0 | [1-9][0-9]*)
  size_t n = s.size(); bool any = false;
  for (size_t b = 0; b < 2 && b < n; b++) { bool ok = b == 0 ? true : sgn(s[0]); bool all = true; for (size_t i = b; i < n; i++) all = all & dig(s[i]); ok = ok & all; if (n - b > 1) ok = ok & (s[b] != '0'); any = any | ok; }
  return any; }
static bool isFloat(const std::string& s) { // [+-]? [0-9]* .? [0-9]+ ([eE] [+-]? [0-9]+)?
  // states: 0 start 1 signed 2 digits 3 dot 4 digits after dot 5 e 6 e-sign 7 e-digits ; kept as a set of flags (one-hot)
  unsigned char st[8] = {1, 0, 0, 0, 0, 0, 0, 0};
  for (char c : s) { unsigned char d = dig(c), g = sgn(c), p = c == '.', e = (c == 'e') | (c == 'E'), n[8];
    n[0] = 0; n[1] = st[0] & g; n[2] = (st[0] | st[1] | st[2]) & d; n[3] = (st[0] | st[1] | st[2]) & p; n[4] = (st[3] | st[4]) & d; n[5] = (st[2] | st[4]) & e; n[6] = st[5] & g; n[7] = (st[5] | st[6] | st[7]) & d;
    for (int i = 0; i < 8; i++) st[i] = n[i]; }
  return (st[2] | st[4] | st[7]) != 0; }
static bool isQuoted(const std::string& s) { return s.size() >= 2 ? (bool)((s[0] == '"') & (s[s.size() - 1] == '"')) : false; }
static T want(const std::string& s) { if (s.empty()) return T::NONE; bool q = isQuoted(s), b = (s == "true") | (s == "false"), i = isInt(s), f = isFloat(s); return q ? T::STRING : b ? T::BOOL : i ? T::INT : f ? T::FLOAT : T::STRING; }
ENTRY(type) {
  std::string s = sym::text("c", sym::pick("n", 0, TIER(8, 14)));
  T t = TypeChecker::parse(s), r = want(s); ls_obs("type", (uint64_t)(int64_t)(int)t);
  ls_check(t == r, "inferred type is the documented one");
  ls_check(TypeChecker::is_int(s) == (r == T::INT), "is_int agrees"); ls_check(TypeChecker::is_float(s) == (r == T::FLOAT), "is_float agrees");
  ls_check(TypeChecker::is_bool(s) == (r == T::BOOL), "is_bool agrees"); ls_check(TypeChecker::is_string(s) == (r == T::STRING), "is_string agrees");
  TypeChecker tc; ls_check(tc(s) == r, "operator() agrees"); ls_reach("end");
}
ENTRY(list) {
  std::vector<std::string> f; size_t k = sym::pick("k", 0, 3); for (size_t i = 0; i < k; i++) f.push_back(sym::text("c", sym::pick("n", 0, TIER(1, 2))));
  std::vector<T> t = TypeChecker::parse(f); ls_check(t.size() == k, "one type per field");
  for (size_t i = 0; i < k; i++) { ls_check(t[i] == want(f[i]), "type of each field"); ls_obs("t", (uint64_t)(int64_t)(int)t[i]); }
  ls_reach("end");
}
