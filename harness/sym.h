// Harness interface: the same harness source is executed symbolically by llsym and replayed natively.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <limits>
#include <stdexcept>
#include <map>
#include <algorithm>
#include <cmath>
#include <fstream>
#include "ls_api.h"
#ifdef LS_ENGINE
#include "ls_ios.h"
#endif
extern "C" { int ls_real_id(void); double ls_deriv_id(double y, double x, int id); }
#ifndef THOROUGH
#define THOROUGH 0
#endif
#define TIER(q, t) (THOROUGH ? (t) : (q))
#define ENTRY(n) extern "C" void H_##n()
namespace sym {
// an integer in [lo, hi], explored value by value
inline size_t pick(const char* n, size_t lo, size_t hi) { if (lo == hi) return lo; unsigned b = 1; while ((hi - lo) >> b) b++; uint64_t v = ls_sym(n, b); ls_assume(v <= hi - lo); return lo + (size_t)ls_concretize(v); }
inline bool flag(const char* n) { return pick(n, 0, 1) != 0; }
// an integer in [lo, hi] kept symbolic
inline uint64_t range(const char* n, uint64_t lo, uint64_t hi) { unsigned b = 1; while (b < 64 && ((hi - lo) >> b)) b++; uint64_t v = ls_sym(n, b); ls_assume(v <= hi - lo); return lo + v; }
inline char chr(const char* n) { return (char)ls_sym(n, 8); }
inline std::string text(const char* n, size_t len) { std::string s(len, '\0'); for (auto& c : s) c = chr(n); return s; }
// symbolic real input
struct Real { double v = 0; int id = -1; operator double() const { return v; } };
inline Real real(const char* n) { Real r; r.v = ls_real(n); r.id = ls_real_id(); return r; }
inline Real real(const char* n, double lo, double hi) { Real r = real(n); ls_assume(r.v >= lo); ls_assume(r.v <= hi); return r; }
struct Reals { std::vector<Real> r; size_t size() const { return r.size(); } const Real& operator[](size_t i) const { return r[i]; } std::vector<double> v() const { std::vector<double> o; o.reserve(r.size()); for (auto& x : r) o.push_back(x.v); return o; } operator std::vector<double>() const { return v(); } };
// reals within the range of double, for comparisons with its limits
inline Reals finite(const char* n, size_t k) { Reals o; for (size_t i = 0; i < k; i++) o.r.push_back(real(n, -1e300, 1e300)); return o; }
inline Reals reals(const char* n, size_t k) { Reals o; for (size_t i = 0; i < k; i++) o.r.push_back(real(n)); return o; }
// k fixed values of either sign with repetitions, all different from their neighbours, the one at position at (if any) replaced by v
inline std::vector<double> mostly(size_t k, size_t at, double v) { std::vector<double> o; for (size_t i = 0; i < k; i++) o.push_back(i == at ? v : ((double)((i * 7 + 3) % 11) - 4.5) / 4); return o; }
// exact derivative of y with respect to an input
inline double D(double y, const Real& x) { return ls_deriv_id(y, x.v, x.id); }
inline void check_eq(const std::vector<double>& a, const std::vector<double>& b, const char* msg) { ls_check(a.size() == b.size(), msg); for (size_t i = 0; i < a.size(); i++) ls_check_eq(a[i], b[i], msg); }
inline void put_file(const std::string& name, const std::string& content) {
#ifdef LS_ENGINE
  ls::vfs()[name] = content;
#else
  std::ofstream f(name, std::ios::binary); f.write(content.data(), (std::streamsize)content.size());
#endif
}
// true when f raises any exception
template <class F> bool throws(F&& f) { try { f(); } catch (...) { return true; } return false; }
template <class E, class F> bool throws_as(F&& f) { try { f(); } catch (const E&) { return true; } catch (...) { return false; } return false; }
}
