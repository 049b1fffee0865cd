#pragma once
#include <streambuf>
#include <bits/stl_iterator_base_types.h>
namespace std {
template <class C, class T> class istreambuf_iterator { basic_streambuf<C, T>* _b = nullptr; public:
  typedef input_iterator_tag iterator_category; typedef C value_type; typedef typename T::off_type difference_type; typedef C* pointer; typedef C reference; typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef basic_streambuf<C, T> streambuf_type; typedef basic_istream<C, T> istream_type;
  istreambuf_iterator() {} istreambuf_iterator(istream_type& s) : _b(s.rdbuf()) {} istreambuf_iterator(streambuf_type* s) : _b(s) {}
  C operator*() const { return T::to_char_type(_b->sgetc()); } istreambuf_iterator& operator++() { _b->sbumpc(); return *this; } struct proxy { C c; C operator*() const { return c; } }; proxy operator++(int) { return {T::to_char_type(_b->sbumpc())}; }
  bool _end() const { return !_b || T::eq_int_type(_b->sgetc(), T::eof()); } bool equal(const istreambuf_iterator& o) const { return _end() == o._end(); }
  friend bool operator==(const istreambuf_iterator& a, const istreambuf_iterator& b) { return a.equal(b); } friend bool operator!=(const istreambuf_iterator& a, const istreambuf_iterator& b) { return !a.equal(b); } };
template <class C, class T> class ostreambuf_iterator { basic_streambuf<C, T>* _b; public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference; typedef basic_ostream<C, T> ostream_type;
  ostreambuf_iterator(ostream_type& s) : _b(s.rdbuf()) {} ostreambuf_iterator& operator=(C c) { _b->sputc(c); return *this; } ostreambuf_iterator& operator*() { return *this; } ostreambuf_iterator& operator++() { return *this; } ostreambuf_iterator& operator++(int) { return *this; } bool failed() const { return false; } };
}
