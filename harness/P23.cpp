// P23: maximum, arg-max and search
#include "sym.h"
#include "dnn/dlmath.hpp"
//@ bound (large) arrays of 17 and 33 (searches: 25) values with repetitions, one of them symbolic
//@ bound arrays of 1..5 symbolic reals or integers (quick) / 1..7 (thorough); searches in 0..5 / 0..7 elements
//@ H_real T=800
//@ H_integer T=800
using namespace EdgeLearning; using L = DLMath;
template <class T> static void run(const std::vector<T>& a) { size_t n = a.size(); auto c = a; T m = L::max(c.data(), n); size_t k = L::argmax(c.data(), n); auto t = L::max_and_argmax(c.data(), n); ls_check(k < n, "position in range"); if (k >= n) return; bool first = true, mx = true; for (size_t i = 0; i < n; i++) { mx = mx & !(a[k] < a[i]); if (i < k) first = first & (a[i] < a[k]); } ls_check(mx, "no element exceeds the maximum"); ls_check(first, "first position holding the maximum"); ls_check(m == a[k], "maximum is the element at the reported position"); ls_check(std::get<0>(t) == a[k] && std::get<1>(t) == k, "joint query agrees"); ls_check(c == a, "array unchanged"); ls_obs("k", k); ls_reach("end"); }
template <class T> static void find(const std::vector<T>& a, T v) { int64_t r = L::index_of(a, v), e = -1; for (size_t i = a.size(); i-- > 0;) if (a[i] == v) e = (int64_t)i; ls_check(r == e, "first position of a value or absence"); ls_obs("r", (uint64_t)r); ls_reach("end"); }
ENTRY(real) { run<double>(sym::reals("a", sym::pick("n", 1, TIER(5, 6))).v()); }
ENTRY(integer) { size_t n = sym::pick("n", 1, TIER(5, 6)); std::vector<int> a; for (size_t i = 0; i < n; i++) a.push_back((int)ls_sym("a", 32)); run<int>(a); }
ENTRY(bytes) { size_t n = sym::pick("n", 1, 3); std::vector<size_t> a; for (size_t i = 0; i < n; i++) a.push_back(ls_sym("a", 64)); run<size_t>(a); }
ENTRY(search_real) { auto a = sym::reals("a", sym::pick("n", 0, TIER(5, 7))).v(); find<double>(a, sym::real("v").v); }
ENTRY(search_int) { size_t n = sym::pick("n", 0, TIER(5, 7)); std::vector<int> a; for (size_t i = 0; i < n; i++) a.push_back((int)ls_sym("a", 32)); find<int>(a, (int)ls_sym("v", 32)); }
ENTRY(large) { size_t n = sym::pick("n", 0, 1) ? 33 : 17, at = sym::pick("at", 0, n - 1); auto a = sym::mostly(n, at, sym::real("v").v); size_t two = sym::pick("second", 0, 3) * 11 % n; if (sym::flag("tie")) a[two] = 1.5; run<double>(a); }
ENTRY(search_large) { size_t n = 25, at = sym::pick("at", 0, n - 1); auto a = sym::mostly(n, at, sym::real("v").v); find<double>(a, sym::flag("absent") ? 99.0 : sym::flag("known") ? a[at] : 1.25); }
