// P04: CSV rows do not depend on how they are accessed
#include "sym.h"
#include "parser/csv.hpp"
//@ bound files of 1..3 (quick) / 1..4 (thorough) rows of one symbolic byte; any 3 (4) lookups with indices 0..2*rows; any 4 (5) iterator operations (++ -- post forms, copy, read); any mix of 3 (4)
//@ bound the last row with or without its newline
//@ assume iterators are dereferenced inside the file only
using namespace EdgeLearning; typedef TypeChecker::Type T;
static std::vector<std::string> make(size_t lo, size_t hi) { size_t n = sym::pick("rows", lo, hi); std::vector<std::string> l; std::string a; for (size_t i = 0; i < n; i++) { std::string s = sym::text("b", 1); ls_assume((s[0] != '\n') & (s[0] != ',')); s.push_back((char)('A' + i)); l.push_back(s); a += s + "\n"; } if (sym::flag("unterminated")) a.pop_back(); sym::put_file("t.csv", a); return l; }
static void same(const CSVRow& r, const std::vector<std::string>& l, size_t i, const char* m) { ls_check(r.line() == l[i], m); ls_check(r.idx() == i, m); ls_check(r.size() == 1, m); ls_check(r[0].as<std::string>() == l[i], m); }
ENTRY(lookup) { auto l = make(1, TIER(3, 4)); CSV csv("t.csv"); size_t n = l.size(); std::vector<CSVRow> kept; std::vector<size_t> at;
  for (int k = 0; k < TIER(3, 4); k++) { size_t i = sym::pick("i", 0, 2 * n); CSVRow r = csv[i]; same(r, l, i % n, "row looked up"); kept.push_back(r); at.push_back(i % n); }
  for (size_t k = 0; k < kept.size(); k++) same(kept[k], l, at[k], "row kept from an earlier lookup"); same(csv.header(), l, 0, "header"); ls_reach("end"); }
ENTRY(entries) { auto l = make(2, 3); CSV csv("t.csv"); size_t n = l.size(); for (int k = 0; k < TIER(3, 4); k++) { size_t i = sym::pick("i", 0, n - 2); if (sym::flag("how")) same(csv[i + 1], l, i + 1, "data row"); else (void)csv.entry(i); } same(csv[1], l, 1, "data row after entries"); ls_reach("end"); }
ENTRY(iterate) { auto l = make(1, 4); CSV csv("t.csv"); for (int pass = 0; pass < 2; pass++) { size_t i = 1; for (auto& r : csv) { ls_check(i < l.size(), "an iteration visits each data row once"); same(r, l, i, "row of an iteration"); i++; } ls_check(i == l.size(), "an iteration reaches the last data row"); if (l.size() > 1) same(csv[l.size() - 1], l, l.size() - 1, "lookup after an iteration"); } ls_reach("end"); }
ENTRY(iterator) { auto l = make(TIER(3, 4), TIER(3, 4)); CSV csv("t.csv"); size_t n = l.size(); CSVIterator it = csv.begin(); size_t at = 1; std::vector<CSVIterator*> olds;
  for (int k = 0; k < TIER(4, 5); k++) { switch (sym::pick("op", 0, 5)) {
      case 0: if (at >= n) ls_kill(); ++it; at++; break; case 1: if (at == 0) ls_kill(); --it; at--; break;
      case 2: { if (at >= n) ls_kill(); CSVIterator o = it++; same(*o, l, at, "iterator before ++"); at++; break; } case 3: { if (at == 0 || at >= n) ls_kill(); CSVIterator o = it--; same(*o, l, at, "iterator before --"); at--; break; }
      case 4: { if (at >= n) ls_kill(); CSVIterator c{it}; ls_check(c == it, "copy equals"); same(*c, l, at, "copied iterator"); if (at + 1 < n) { ++c; same(*c, l, at + 1, "advanced copy"); ls_check(c != it, "advanced copy differs"); } break; }
      default: if (at >= n) ls_kill(); same(*it, l, at, "dereferenced iterator"); ls_check(it->line() == l[at], "iterator arrow"); } }
  if (at < n) same(*it, l, at, "iterator at the end"); ls_reach("end"); }
ENTRY(mixed) { auto l = make(3, 3); CSV csv("t.csv"); size_t n = 3; CSVIterator it = csv.begin(); size_t at = 1;
  for (int k = 0; k < TIER(3, 4); k++) { switch (sym::pick("op", 0, 3)) { case 0: { size_t i = sym::pick("i", 0, n); same(csv[i], l, i % n, "row"); break; } case 1: same(*it, l, at, "iterator"); break; case 2: if (at + 1 < n) { ++it; at++; } break; default: { std::vector<std::string> v = csv; ls_check(v.size() == n && v[n - 1] == l[n - 1], "lines"); } } }
  same(*it, l, at, "iterator"); ls_reach("end"); }
ENTRY(reopen) { auto l = make(2, 3); CSV a("t.csv"); CSV b("t.csv"); size_t i = sym::pick("i", 0, 4), j = sym::pick("j", 0, 4); CSVRow x = a[i]; CSVRow y = b[j]; same(a[j], l, j % l.size(), "first file"); same(b[j], l, j % l.size(), "second file"); same(x, l, i % l.size(), "kept"); same(y, l, j % l.size(), "kept"); ls_reach("end"); }
