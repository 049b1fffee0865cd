#pragma once
namespace std { template <class I> class uniform_int_distribution; namespace __detail { template <class T> constexpr bool _Power_of_2(T x) { return ((x - 1) & x) == 0; } } }
