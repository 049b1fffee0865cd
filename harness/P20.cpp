// P20: activation functions and their derivatives
#include "sym.h"
#include "dnn/dlmath.hpp"
//@ bound every real input and every real ELU coefficient (positive for the form computed from the output); arrays of 0..3 elements, and of 9 and 18 with one of them symbolic, in place or not
//@ assume exp, tanh are the exact real functions, known to the solver by their monotonicity, positivity and functional equations at the arguments that occur
using namespace EdgeLearning; using V = std::vector<double>; using L = DLMath;
ENTRY(scalar) { sym::Real x = sym::real("x"), a = sym::real("alpha"); double v = x.v, al = a.v; double t = std::tanh(v), e = std::exp(v), em = std::exp(-v);
  ls_check_eq(L::relu(v), v > 0 ? v : 0, "relu"); ls_check_eq(L::elu(v, al), v > 0 ? v : al * (e - 1), "elu"); ls_check_eq(L::tanh(v), t, "tanh"); ls_check_eq(L::sigmoid(v) * (1 + em), 1, "sigmoid"); ls_check_lt(0, L::sigmoid(v), "sigmoid positive"); ls_check_lt(L::sigmoid(v), 1, "sigmoid below one");
  double dr = sym::D(L::relu(v), x), de = sym::D(L::elu(v, al), x); // the same number of slopes on every path
  if (v != 0) { ls_check_eq(L::relu_1(v), dr, "slope of relu"); ls_check_eq(L::elu_1(v, al), de, "slope of elu"); } else { double r = L::relu_1(v); ls_check(r == 0 || r == 1, "one-sided slope of relu at zero"); double q = L::elu_1(v, al); ls_check(q == al || q == 1, "one-sided slope of elu at zero"); }
  ls_check_eq(L::tanh_1(v), sym::D(L::tanh(v), x), "slope of tanh"); ls_check_eq(L::sigmoid_1(v), sym::D(L::sigmoid(v), x), "slope of sigmoid");
  ls_check_eq(L::tanh_1_opt(L::tanh(v)), L::tanh_1(v), "slope of tanh from its output"); ls_check_eq(L::sigmoid_1_opt(L::sigmoid(v)), L::sigmoid_1(v), "slope of sigmoid from its output"); ls_check_eq(L::relu_1(L::relu(v)), L::relu_1(v), "slope of relu from its output"); if (al > 0 && v != 0) ls_check_eq(L::elu_1_opt(L::elu(v, al), al), L::elu_1(v, al), "slope of elu from its output");
  ls_obsr("relu", L::relu(v)); ls_obsr("sig", L::sigmoid(v)); ls_obsr("elu", L::elu(v, al)); ls_reach("end"); }
ENTRY(derivative_values) { sym::Real x = sym::real("x"), a = sym::real("alpha"); double v = x.v, al = a.v, e = std::exp(v), t = std::tanh(v), s = 1 / (1 + std::exp(-v)); ls_check_eq(L::relu_1(v), v > 0 ? 1 : 0, "relu derivative"); ls_check_eq(L::elu_1(v, al), v > 0 ? 1 : al * e, "elu derivative"); ls_check_eq(L::tanh_1(v), 1 - t * t, "tanh derivative"); ls_check_eq(L::sigmoid_1(v), s * (1 - s), "sigmoid derivative"); ls_reach("end"); }
template <class S, class A> static void arr(const V& x, bool in, S f, A g, const char* m) { size_t n = x.size(); V e; for (double v : x) e.push_back(f(v)); V d = sym::reals("old", n + 1), src = x; if (in) std::copy(x.begin(), x.end(), d.begin()); double keep = d[n]; double* r = g(d.data(), in ? d.data() : src.data(), n); ls_check(r == d.data(), "destination returned"); ls_check_eq(d[n], keep, "nothing past the destination is written"); d.pop_back(); sym::check_eq(d, e, m); sym::check_eq(src, x, "source unchanged"); }
ENTRY(arrays) { size_t n = sym::pick("n", 0, 5); bool in = sym::flag("inplace"); V x; if (n < 4) x = sym::reals("x", n); else { n = n == 4 ? 9 : 18; size_t at = sym::pick("at", 0, n - 1); x = sym::mostly(n, at, sym::real("x").v); } double a = sym::real("alpha").v; size_t w = sym::pick("fn", 0, 9); using D = double; using P = double*; using Q = const double*;
  switch (w) { case 0: arr(x, in, [](D v) { return L::relu(v); }, [](P d, Q s, size_t k) { return L::relu(d, s, k); }, "relu array"); break; case 1: arr(x, in, [](D v) { return L::relu_1(v); }, [](P d, Q s, size_t k) { return L::relu_1(d, s, k); }, "relu derivative array"); break;
    case 2: arr(x, in, [=](D v) { return L::elu(v, a); }, [=](P d, Q s, size_t k) { return L::elu(d, s, k, a); }, "elu array"); break; case 3: arr(x, in, [=](D v) { return L::elu_1(v, a); }, [=](P d, Q s, size_t k) { return L::elu_1(d, s, k, a); }, "elu derivative array"); break; case 4: arr(x, in, [=](D v) { return v > 0 ? 1 : v + a; }, [=](P d, Q s, size_t k) { return L::elu_1_opt(d, s, k, a); }, "elu derivative from output array"); break;
    case 5: arr(x, in, [](D v) { return std::tanh(v); }, [](P d, Q s, size_t k) { return L::tanh(d, s, k); }, "tanh array"); break; case 6: arr(x, in, [](D v) { return L::tanh_1(v); }, [](P d, Q s, size_t k) { return L::tanh_1(d, s, k); }, "tanh derivative array"); arr(x, in, [](D v) { return 1 - v * v; }, [](P d, Q s, size_t k) { return L::tanh_1_opt(d, s, k); }, "tanh derivative from output array"); break;
    case 7: arr(x, in, [](D v) { return L::sigmoid(v); }, [](P d, Q s, size_t k) { return L::sigmoid(d, s, k); }, "sigmoid array"); break; case 8: arr(x, in, [](D v) { return L::sigmoid_1(v); }, [](P d, Q s, size_t k) { return L::sigmoid_1(d, s, k); }, "sigmoid derivative array"); break; case 9: arr(x, in, [](D v) { return v * (1 - v); }, [](P d, Q s, size_t k) { return L::sigmoid_1_opt(d, s, k); }, "sigmoid derivative from output array"); break; }
  ls_reach("end"); }
