// Model of <random>: every draw is an arbitrary value of the distribution's support; a draw is a function of the
// generator's seed and position, so copies of a generator repeat each other's draws.  Also used by native replays.
#pragma once
#include <cstdint>
#include <map>
#include <utility>
#include <limits>
#include <vector>
#include <algorithm>
#include <type_traits>
#include "ls_api.h"
namespace ls { struct draws_t { std::map<std::pair<uint64_t, uint64_t>, uint64_t> u; std::map<std::pair<uint64_t, uint64_t>, double> z, r; }; inline draws_t& draws() { static draws_t* d = new draws_t; return *d; } inline uint64_t& rd_count() { static uint64_t n = 1; return n; } inline uint64_t& draw_count() { static uint64_t n = 0; return n; } }
namespace LS_RND_NS {
template <class U, int TAG> class ls_engine { public: typedef U result_type; uint64_t seed_ = 5489, pos_ = 0; static constexpr result_type default_seed = 5489u;
  ls_engine() {} explicit ls_engine(uint64_t s) : seed_(s) {} void seed(uint64_t s = 5489) { seed_ = s; pos_ = 0; } static constexpr U min() { return 0; } static constexpr U max() { return std::numeric_limits<U>::max(); } void discard(unsigned long long n) { pos_ += n; }
  std::pair<uint64_t, uint64_t> key() { return {seed_ * 8 + TAG, pos_++}; }
  U operator()() { auto k = key(); auto& m = ls::draws().u; auto it = m.find(k); if (it != m.end()) return (U)it->second; ls::draw_count()++; uint64_t v = ls_sym("draw_u", sizeof(U) * 8); m[k] = v; return (U)v; }
  uint64_t ls_below(uint64_t n) { auto k = key(); auto& m = ls::draws().u; auto it = m.find(k); if (it != m.end()) return it->second % n; ls::draw_count()++; uint64_t v = ls_sym("draw_below", 8 * 8); ls_assume(v < n); m[k] = v; return v; }
  double ls_normal() { auto k = key(); auto& m = ls::draws().z; auto it = m.find(k); if (it != m.end()) return it->second; ls::draw_count()++; double v = ls_real("draw_normal"); m[k] = v; return v; }
  double ls_unit() { auto k = key(); auto& m = ls::draws().r; auto it = m.find(k); if (it != m.end()) return it->second; ls::draw_count()++; double v = ls_real("draw_unit"); ls_assume(v >= 0.0); ls_assume(v < 1.0); m[k] = v; return v; }
  friend bool operator==(const ls_engine& a, const ls_engine& b) { return a.seed_ == b.seed_ && a.pos_ == b.pos_; } friend bool operator!=(const ls_engine& a, const ls_engine& b) { return !(a == b); } };
typedef ls_engine<uint_fast64_t, 1> mt19937_64; typedef ls_engine<uint32_t, 2> mt19937; typedef ls_engine<uint32_t, 3> minstd_rand; typedef ls_engine<uint32_t, 4> minstd_rand0; typedef ls_engine<uint32_t, 5> default_random_engine; typedef ls_engine<uint32_t, 6> ranlux24; typedef ls_engine<uint32_t, 7> knuth_b;
class random_device { public: typedef unsigned result_type; random_device() {} template <class S> explicit random_device(const S&) {} static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } unsigned operator()() { return (unsigned)(1000003u * ls::rd_count()++ + 17); } double entropy() const { return 32; } };
template <class R = double> class normal_distribution { R m_, s_; public: typedef R result_type; struct param_type { R m_, s_; explicit param_type(R m = 0, R s = 1) : m_(m), s_(s) {} R mean() const { return m_; } R stddev() const { return s_; } }; explicit normal_distribution(R m = 0, R s = 1) : m_(m), s_(s) {} explicit normal_distribution(const param_type& p) : m_(p.m_), s_(p.s_) {} template <class G> R operator()(G&& g, const param_type& p) { return p.m_ + p.s_ * (R)g.ls_normal(); } param_type param() const { return param_type(m_, s_); } void param(const param_type& p) { m_ = p.m_; s_ = p.s_; } template <class G> R operator()(G&& g) { return m_ + s_ * (R)g.ls_normal(); } R mean() const { return m_; } R stddev() const { return s_; } void reset() {} };
template <class R = double> class uniform_real_distribution { R a_, b_; public: typedef R result_type; struct param_type { R a_, b_; explicit param_type(R a = 0, R b = 1) : a_(a), b_(b) {} R a() const { return a_; } R b() const { return b_; } }; explicit uniform_real_distribution(R a = 0, R b = 1) : a_(a), b_(b) {} explicit uniform_real_distribution(const param_type& p) : a_(p.a_), b_(p.b_) {} template <class G> R operator()(G&& g, const param_type& p) { return uniform_real_distribution(p)(g); } param_type param() const { return param_type(a_, b_); } void param(const param_type& p) { a_ = p.a_; b_ = p.b_; } template <class G> R operator()(G&& g) { return a_ + (b_ - a_) * (R)g.ls_unit(); } R a() const { return a_; } R b() const { return b_; } R min() const { return a_; } R max() const { return b_; } void reset() {} };
template <class I = int> class uniform_int_distribution { I a_, b_; public: typedef I result_type; struct param_type { I a_, b_; explicit param_type(I a = 0, I b = std::numeric_limits<I>::max()) : a_(a), b_(b) {} I a() const { return a_; } I b() const { return b_; } }; explicit uniform_int_distribution(I a = 0, I b = std::numeric_limits<I>::max()) : a_(a), b_(b) {} explicit uniform_int_distribution(const param_type& p) : a_(p.a_), b_(p.b_) {} template <class G> I operator()(G&& g, const param_type& p) { return uniform_int_distribution(p)(g); } param_type param() const { return param_type(a_, b_); } void param(const param_type& p) { a_ = p.a_; b_ = p.b_; } template <class G> I operator()(G&& g) { return (I)(a_ + (I)g.ls_below((uint64_t)b_ - (uint64_t)a_ + 1)); } I a() const { return a_; } I b() const { return b_; } I min() const { return a_; } I max() const { return b_; } void reset() {} };
class bernoulli_distribution { double p_; public: typedef bool result_type; explicit bernoulli_distribution(double p = 0.5) : p_(p) {} template <class G> bool operator()(G&& g) { return g.ls_unit() < p_; } double p() const { return p_; } void reset() {} };
template <class R, size_t B, class G> R generate_canonical(G& g) { return (R)g.ls_unit(); }
template <class It, class U, int T> inline void shuffle(It a, It b, ls_engine<U, T>& g) { auto n = b - a; for (auto i = n - 1; i > 0; --i) { uint64_t j = ls_concretize(g.ls_below((uint64_t)i + 1)); if ((long)j != (long)i) std::iter_swap(a + i, a + (long)j); } }
template <class It, class U, int T> inline void shuffle(It a, It b, ls_engine<U, T>&& g) { shuffle(a, b, g); }
}
