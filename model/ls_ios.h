// Model of the iostreams library for symbolic execution: character sequences live in std::string buffers, files in an
// in-memory file system; number extraction follows the num_get rules of the C++ standard as libstdc++ implements them.
#pragma once
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <map>
#include <bits/localefwd.h>
#include <limits>
#include <utility>
#include "ls_api.h"
namespace ls {
inline std::map<std::string, std::string>& vfs() { static std::map<std::string, std::string>* m = new std::map<std::string, std::string>; return *m; }
inline bool is_sp(char c) { return (c == ' ') | ((c >= '\t') & (c <= '\r')); }
inline bool is_dg(char c) { return (unsigned char)(c - '0') < 10; }
inline void put_uint(std::string& o, unsigned long v, unsigned base = 10, bool upper = false) { char b[80]; int n = 80; do { unsigned d = v % base; b[--n] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= base; } while (v); o.append(b + n, 80 - n); }
inline void put_int(std::string& o, long v) { if (v < 0) { o.push_back('-'); put_uint(o, 0ul - (unsigned long)v); } else put_uint(o, (unsigned long)v); }
inline void put_fmt(std::string& o, double v, int mode, uint64_t prec) { char b[820]; uint64_t n = ls_real_fmt(v, b, sizeof b, mode, prec); o.append(b, n); }
inline void put_real(std::string& o, double v) { char b[420]; uint64_t n = ls_real_token(v, b, sizeof b); o.append(b, n); }
// value of the decimal text accumulated by the scanner below
struct dec_acc {
  double m = 0; int64_t ex = 0; bool neg = false, dec = false, sci = false, mant = false, eneg = false, edig = false; int64_t e10 = 0; bool tok = false; uint64_t tid = 0;
  void digit(char c) { if (sci) { edig = true; int64_t d = (int64_t)ls_concretize((uint64_t)(c - '0')); if (e10 < 100000) e10 = e10 * 10 + d; } else { mant = true; m = m * 10.0 + (double)(c - '0'); if (dec) ex--; } }
  bool ok() const { return mant && (!sci || edig); }
  double value() const { double v = tok ? ls_token_real(tid) : ls_dec_real(m, ex + (eneg ? -e10 : e10)); if (tok) return v; return neg ? -v : v; }
};
}
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags, iostate, openmode; typedef int seekdir;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 176, basefield = 74, floatfield = 260;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32; static constexpr seekdir beg = 0, cur = 1, end = 2;
  class failure : public runtime_error { public: explicit failure(const string& s) : runtime_error(s) {} explicit failure(const char* s) : runtime_error(s) {} };
  class Init {};
  fmtflags flags() const { return _fl; } fmtflags flags(fmtflags f) { auto o = _fl; _fl = f; return o; } fmtflags setf(fmtflags f) { auto o = _fl; _fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = _fl; _fl = (_fl & ~m) | (f & m); return o; } void unsetf(fmtflags f) { _fl &= ~f; }
  streamsize precision() const { return _pr; } streamsize precision(streamsize p) { auto o = _pr; _pr = p; return o; } streamsize width() const { return _w; } streamsize width(streamsize w) { auto o = _w; _w = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
protected: fmtflags _fl = dec | skipws; streamsize _pr = 6, _w = 0;
};
template <class C, class T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_string<C, T> _s; size_t _g = 0, _p = 0; bool _null = false, _rd = true, _wr = true, _app = false;
  virtual ~basic_streambuf() {}
  int_type sgetc() { return _rd && _g < _s.size() ? T::to_int_type(_s[_g]) : T::eof(); }
  int_type sbumpc() { return _rd && _g < _s.size() ? T::to_int_type(_s[_g++]) : T::eof(); }
  int_type snextc() { if (T::eq_int_type(sbumpc(), T::eof())) return T::eof(); return sgetc(); }
  streamsize sgetn(C* b, streamsize n) { if (!_rd || n < 0) return 0; size_t a = _s.size() - (_g < _s.size() ? _g : _s.size()); if ((size_t)n < a) a = (size_t)n; if (a) T::copy(b, _s.data() + _g, a); _g += a; return (streamsize)a; }
  streamsize in_avail() { return (streamsize)(_s.size() - _g); }
  int_type sputc(C c) { sputn(&c, 1); return T::to_int_type(c); }
  streamsize sputn(const C* b, streamsize n) { if (_null) return n; if (!_wr) return 0; if (_app) _p = _s.size(); if (_p > _s.size()) _s.resize(_p); size_t o = _s.size() - _p; if (o > (size_t)n) o = (size_t)n; for (size_t i = 0; i < o; i++) _s[_p + i] = b[i]; if ((size_t)n > o) _s.append(b + o, (size_t)n - o); _p += (size_t)n; return n; }
  int_type sungetc() { if (!_g) return T::eof(); return T::to_int_type(_s[--_g]); }
  int_type sputbackc(C c) { if (!_g || !T::eq(_s[_g - 1], c)) return T::eof(); return T::to_int_type(_s[--_g]); }
  pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { off_type b = d == ios_base::beg ? 0 : d == ios_base::cur ? (off_type)((m & ios_base::in) ? _g : _p) : (off_type)_s.size(); return pubseekpos(pos_type(b + o), m); }
  pos_type pubseekpos(pos_type q, ios_base::openmode m = ios_base::in | ios_base::out) { off_type b = q; if (b < 0 || (!_file && (size_t)b > _s.size())) return pos_type(off_type(-1)); if (m & ios_base::in) _g = (size_t)b; if (m & ios_base::out) _p = (size_t)b; return pos_type(b); }
  virtual int pubsync() { return 0; } void swap(basic_streambuf& o) { std::swap(_s, o._s); std::swap(_g, o._g); std::swap(_p, o._p); std::swap(_null, o._null); std::swap(_rd, o._rd); std::swap(_wr, o._wr); std::swap(_app, o._app); std::swap(_file, o._file); }
  bool _file = false;
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  explicit basic_stringbuf(ios_base::openmode = ios_base::in | ios_base::out) {} explicit basic_stringbuf(const basic_string<C, T, A>& s, ios_base::openmode = ios_base::in | ios_base::out) { this->_s = s; }
  basic_string<C, T, A> str() const { return this->_s; } void str(const basic_string<C, T, A>& s) { this->_s = s; this->_g = 0; this->_p = 0; }
};
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> {
public:
  std::string _name; bool _open = false, _dirty = false; ios_base::openmode _m = 0;
  basic_filebuf() { this->_rd = this->_wr = false; this->_file = true; } ~basic_filebuf() { close(); }
  bool is_open() const { return _open; }
  basic_filebuf* open(const std::string& n, ios_base::openmode m) {
    if (_open) return nullptr; auto& v = ls::vfs(); auto it = v.find(n); bool in = m & ios_base::in, out = m & (ios_base::out | ios_base::app);
    if (!out && it == v.end()) return nullptr; if (in && out && !(m & (ios_base::trunc | ios_base::app)) && it == v.end()) return nullptr;
    this->_s.clear(); this->_g = this->_p = 0; bool keep = in || (m & ios_base::app); if (m & ios_base::trunc) keep = false; if (it != v.end() && keep) this->_s = it->second;
    if (out) v[n] = this->_s; this->_rd = in; this->_wr = out; this->_app = m & ios_base::app; if (m & ios_base::ate) { this->_g = this->_p = this->_s.size(); } _name = n; _m = m; _open = true; return this; }
  basic_filebuf* close() { if (!_open) return nullptr; pubsync(); _open = false; this->_rd = this->_wr = false; this->_s.clear(); this->_g = this->_p = 0; return this; }
  int pubsync() override { if (_open && this->_wr) ls::vfs()[_name] = this->_s; return 0; }
};
template <class C, class T> class basic_ostream;
template <class C, class T> class basic_istream;
template <class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_streambuf<C, T>* _b = nullptr; iostate _st = goodbit, _ex = goodbit; C _fill = ' '; basic_ostream<C, T>* _tie = nullptr;
  basic_ios() {} explicit basic_ios(basic_streambuf<C, T>* b) { init(b); }
  void init(basic_streambuf<C, T>* b) { _b = b; _st = b ? goodbit : badbit; }
  bool good() const { return _st == 0; } bool eof() const { return _st & eofbit; } bool fail() const { return _st & (failbit | badbit); } bool bad() const { return _st & badbit; } iostate rdstate() const { return _st; }
  void clear(iostate s = goodbit) { _st = _b ? s : (s | badbit); if (_st & _ex) throw ios_base::failure("basic_ios::clear"); } void setstate(iostate s) { if (s) clear(_st | s); }
  iostate exceptions() const { return _ex; } void exceptions(iostate e) { _ex = e; clear(_st); }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  basic_streambuf<C, T>* rdbuf() const { return _b; } basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto* o = _b; _b = b; clear(); return o; } basic_ostream<C, T>* tie() const { return _tie; } basic_ostream<C, T>* tie(basic_ostream<C, T>* t) { auto* o = _tie; _tie = t; return o; }
  C fill() const { return _fill; } C fill(C c) { C o = _fill; _fill = c; return o; } basic_ios& copyfmt(const basic_ios& o) { _fl = o._fl; _pr = o._pr; _w = o._w; _fill = o._fill; return *this; }
  C widen(char c) const { return c; } char narrow(C c, char) const { return c; } template <class L> L imbue(const L& l) { return l; }
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef ios_base::iostate iostate; typedef basic_ostream O; using typename basic_ios<C, T>::pos_type; using typename basic_ios<C, T>::off_type;
  explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
  struct sentry { bool k; explicit sentry(basic_ostream& o) : k(o.good()) {} explicit operator bool() const { return k; } };
  O& _put(const std::string& s) { if (!this->good()) { this->setstate(ios_base::badbit & 0); return *this; } if (this->_b->_null) { this->_w = 0; return *this; } size_t w = this->_w > 0 ? (size_t)this->_w : 0; this->_w = 0; size_t pad = s.size() < w ? w - s.size() : 0; bool l = (this->_fl & ios_base::adjustfield) == ios_base::left; bool ok = true;
    if (!l) for (size_t i = 0; i < pad; i++) this->_b->sputc(this->_fill); if (this->_b->sputn(s.data(), (streamsize)s.size()) != (streamsize)s.size()) ok = false; if (l) for (size_t i = 0; i < pad; i++) this->_b->sputc(this->_fill); if (!ok) this->setstate(ios_base::badbit); return *this; }
  bool _nul() { if (this->_b && this->_b->_null) { this->_w = 0; return true; } return false; }
  O& _u(unsigned long v, bool neg = false) { if (_nul()) return *this; std::string s; auto f = this->_fl & ios_base::basefield; unsigned b = f == ios_base::hex ? 16 : f == ios_base::oct ? 8 : 10; if (neg) s.push_back('-'); else if ((this->_fl & ios_base::showpos) && b == 10) s.push_back('+'); if ((this->_fl & ios_base::showbase) && b != 10) s += b == 16 ? "0x" : "0"; ls::put_uint(s, v, b, this->_fl & ios_base::uppercase); return _put(s); }
  O& _i(long v, unsigned bits) { if (_nul()) return *this; auto f = this->_fl & ios_base::basefield; if (f == ios_base::hex || f == ios_base::oct) return _u(bits >= 64 ? (unsigned long)v : ((unsigned long)v & ((1ul << bits) - 1))); if (v < 0) return _u(0ul - (unsigned long)v, true); return _u((unsigned long)v); }
  O& operator<<(int v) { return _i(v, 32); } O& operator<<(short v) { return _i(v, 16); } O& operator<<(long v) { return _i(v, 64); } O& operator<<(long long v) { return _i(v, 64); }
  O& operator<<(unsigned v) { return _u(v); } O& operator<<(unsigned short v) { return _u(v); } O& operator<<(unsigned long v) { return _u(v); } O& operator<<(unsigned long long v) { return _u(v); }
  O& operator<<(bool v) { if (this->_fl & ios_base::boolalpha) return _put(v ? "true" : "false"); return _u(v); }
  O& operator<<(double v) { if (_nul()) return *this; std::string s; auto f = this->_fl & ios_base::floatfield; ls::put_fmt(s, v, f == ios_base::fixed ? 0 : f == ios_base::scientific ? 2 : 1, (uint64_t)this->_pr); return _put(s); }
  O& operator<<(float v) { return *this << (double)v; } O& operator<<(long double v) { return *this << (double)v; }
  O& operator<<(const void* p) { if (_nul()) return *this; std::string s = "0x"; ls::put_uint(s, (unsigned long)p, 16); return _put(s); } O& operator<<(nullptr_t) { return _put("nullptr"); }
  O& operator<<(O& (*f)(O&)) { return f(*this); } O& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; } O& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  O& operator<<(basic_streambuf<C, T>* b) { bool any = false; if (b) for (auto c = b->sgetc(); !T::eq_int_type(c, T::eof()); c = b->snextc()) { put(T::to_char_type(c)); any = true; } if (!any) this->setstate(ios_base::failbit); return *this; }
  O& put(C c) { if (this->good()) { if (this->_b->sputn(&c, 1) != 1) this->setstate(ios_base::badbit); } return *this; } O& write(const C* s, streamsize n) { if (this->good()) { if (this->_b->sputn(s, n) != n) this->setstate(ios_base::badbit); } return *this; }
  O& flush() { if (this->_b) this->_b->pubsync(); return *this; } pos_type tellp() { return this->fail() ? pos_type(off_type(-1)) : pos_type((off_type)this->_b->_p); } O& seekp(pos_type p) { if (!this->fail()) this->_b->pubseekpos(p, ios_base::out); return *this; } O& seekp(off_type o, ios_base::seekdir d) { if (!this->fail()) this->_b->pubseekoff(o, d, ios_base::out); return *this; }
protected: basic_ostream() {}
};
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef ios_base::iostate iostate; typedef basic_istream I; using typename basic_ios<C, T>::pos_type; using typename basic_ios<C, T>::off_type; using typename basic_ios<C, T>::int_type;
  streamsize _gc = 0;
  explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); }
  struct sentry { bool k = false; explicit sentry(basic_istream& i, bool noskip = false) { if (i.good() && !noskip && (i._fl & ios_base::skipws)) i._ws(); if (i.good()) k = true; else i.setstate(ios_base::failbit); } explicit operator bool() const { return k; } };
  void _ws() { auto* b = this->_b; while (true) { auto c = b->sgetc(); if (T::eq_int_type(c, T::eof())) { this->_st |= ios_base::eofbit; return; } if (!ls::is_sp((char)c)) return; b->sbumpc(); } }
  // libstdc++ num_get::_M_extract_int, decimal/hex/oct without grouping
  template <class U> void _int(U& out, bool isSigned) {
    sentry s(*this); if (!s) return; auto* b = this->_b; iostate err = 0; auto f = this->_fl & ios_base::basefield; unsigned base = f == ios_base::oct ? 8 : f == ios_base::hex ? 16 : 10;
    bool neg = false, zero = false, any = false, ovf = false; auto eofp = [&] { return b->_g >= b->_s.size(); }; auto cur = [&] { return (char)b->_s[b->_g]; };
    if (!eofp()) { char c = cur(); if (c == '-') { neg = true; b->_g++; } else if (c == '+') b->_g++; }
    while (!eofp() && cur() == '0') { zero = true; b->_g++; if (base == 16 && !eofp() && (cur() == 'x' || cur() == 'X')) { b->_g++; zero = false; break; } }
    unsigned long v = 0, mx = !isSigned ? (unsigned long)std::numeric_limits<U>::max() : neg ? (unsigned long)std::numeric_limits<U>::max() + 1 : (unsigned long)std::numeric_limits<U>::max();
    while (!eofp()) { char c = cur(); unsigned d; if (ls::is_dg(c)) d = (unsigned)(c - '0'); else if (base == 16 && c >= 'a' && c <= 'f') d = (unsigned)(c - 'a') + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = (unsigned)(c - 'A') + 10; else break; if (base == 8 && d > 7) break;
      any = true; if (ovf || v > mx / base) ovf = true; else { v *= base; if (v > mx - d) ovf = true; else v += d; } b->_g++; }
    if (!any && !zero) { out = 0; err = ios_base::failbit; } else if (ovf) { out = neg && isSigned ? std::numeric_limits<U>::min() : std::numeric_limits<U>::max(); err = ios_base::failbit; } else out = (U)(neg ? 0ul - v : v);
    if (eofp()) err |= ios_base::eofbit; this->setstate(err); }
  template <class N> I& _small(N& v) { long l = 0; sentry s(*this, false); if (!s) return *this; auto fl = this->_fl; this->_fl &= ~ios_base::skipws; auto ex = this->_ex; this->_ex = 0; _int(l, true); this->_fl = fl; this->_ex = ex; iostate e = 0; if (l < (long)std::numeric_limits<N>::min()) { e = ios_base::failbit; v = std::numeric_limits<N>::min(); } else if (l > (long)std::numeric_limits<N>::max()) { e = ios_base::failbit; v = std::numeric_limits<N>::max(); } else v = (N)l; this->clear(this->_st | e); return *this; }
  I& operator>>(int& v) { return _small(v); } I& operator>>(short& v) { return _small(v); }
  I& operator>>(long& v) { _int(v, true); return *this; } I& operator>>(long long& v) { _int(v, true); return *this; } I& operator>>(unsigned& v) { _int(v, false); return *this; } I& operator>>(unsigned short& v) { _int(v, false); return *this; } I& operator>>(unsigned long& v) { _int(v, false); return *this; } I& operator>>(unsigned long long& v) { _int(v, false); return *this; }
  I& operator>>(bool& v) { if (this->_fl & ios_base::boolalpha) { std::string t; sentry s(*this); if (!s) return *this; const char* names[2] = {"false", "true"}; size_t p0 = this->_b->_g; for (int k = 0; k < 2; k++) { size_t i = 0, g = p0; while (names[k][i] && g < this->_b->_s.size() && (char)this->_b->_s[g] == names[k][i]) { i++; g++; } if (!names[k][i]) { this->_b->_g = g; v = k; if (g >= this->_b->_s.size()) this->setstate(ios_base::eofbit); return *this; } } v = false; this->setstate(ios_base::failbit); return *this; }
    sentry s0(*this); if (!s0) return *this; long l = 0; auto fl = this->_fl; this->_fl &= ~ios_base::skipws; auto ex = this->_ex; this->_ex = 0; _int(l, true); this->_fl = fl; this->_ex = ex; if (l == 0 || l == 1) { v = l; this->clear(this->_st); } else { v = true; this->clear(this->_st | ios_base::failbit); } return *this; }
  I& _dbl(double& v) { sentry s(*this); if (!s) return *this; auto* b = this->_b; ls::dec_acc a; auto eofp = [&] { return b->_g >= b->_s.size(); }; auto cur = [&] { return (char)b->_s[b->_g]; };
    if (!eofp()) { char c = cur(); if (c == '-') { a.neg = true; b->_g++; } else if (c == '+') b->_g++; }
    while (!eofp()) { char c = cur(); if (!ls_is_symbolic_u((unsigned char)c) && c == 1) { b->_g++; uint64_t id = 0; while (cur() != 2) { id = id * 10 + (uint64_t)(cur() - '0'); b->_g++; } b->_g++; a.tok = true; a.tid = id; continue; }
      if (ls::is_dg(c)) a.digit(c); else if (c == '.' && !a.dec && !a.sci) a.dec = true; else if ((c == 'e' || c == 'E') && !a.sci && a.mant) { a.sci = true; b->_g++; if (!eofp()) { char q = cur(); if (q == '+') b->_g++; else if (q == '-') { a.eneg = true; b->_g++; } } continue; } else break; b->_g++; }
    iostate e = 0; if (!a.ok()) { v = 0; e = ios_base::failbit; } else { double r = a.value(); if (r > std::numeric_limits<double>::max()) { v = std::numeric_limits<double>::max(); e = ios_base::failbit; } else if (r < -std::numeric_limits<double>::max()) { v = -std::numeric_limits<double>::max(); e = ios_base::failbit; } else v = r; }
    if (eofp()) e |= ios_base::eofbit; this->setstate(e); return *this; }
  I& operator>>(double& v) { return _dbl(v); } I& operator>>(float& v) { double d; auto ex = this->_ex; this->_ex = 0; sentry s(*this); this->_ex = ex; if (!s) { this->clear(this->_st); return *this; } _dbl(d); v = (float)d; return *this; } I& operator>>(long double& v) { double d = 0; sentry s(*this); if (!s) return *this; _dbl(d); v = d; return *this; }
  I& operator>>(I& (*f)(I&)) { return f(*this); } I& operator>>(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; } I& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  I& operator>>(basic_streambuf<C, T>* o) { sentry s(*this, true); if (!s) return *this; bool any = false; for (auto c = this->_b->sgetc(); !T::eq_int_type(c, T::eof()); c = this->_b->snextc()) { o->sputc(T::to_char_type(c)); any = true; } this->setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit)); return *this; }
  streamsize gcount() const { return _gc; }
  int_type get() { _gc = 0; sentry s(*this, true); if (!s) return T::eof(); auto c = this->_b->sbumpc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit | ios_base::failbit); else _gc = 1; return c; }
  I& get(C& o) { auto c = get(); if (!T::eq_int_type(c, T::eof())) o = T::to_char_type(c); return *this; }
  I& get(C* b, streamsize n, C d) { return _line(b, n, d, false); } I& get(C* b, streamsize n) { return get(b, n, '\n'); } I& getline(C* b, streamsize n, C d) { return _line(b, n, d, true); } I& getline(C* b, streamsize n) { return getline(b, n, '\n'); }
  I& _line(C* b, streamsize n, C d, bool eat) { _gc = 0; sentry s(*this, true); iostate e = 0; streamsize k = 0; if (s) { while (true) { auto c = this->_b->sgetc(); if (T::eq_int_type(c, T::eof())) { e |= ios_base::eofbit; break; } if (T::to_char_type(c) == d) { if (eat) { this->_b->sbumpc(); _gc++; } break; } if (k + 1 >= n) { if (eat) e |= ios_base::failbit; break; } b[k++] = T::to_char_type(c); this->_b->sbumpc(); _gc++; } } if (n > 0) b[k] = C(); if (!_gc) e |= ios_base::failbit; this->setstate(e); return *this; }
  I& ignore(streamsize n = 1) { return ignore(n, T::eof()); }
  I& ignore(streamsize n, int_type d) { _gc = 0; sentry s(*this, true); if (!s) return *this; bool inf = n == std::numeric_limits<streamsize>::max(); auto dl = T::eof(); if (d != dl && (d < 0)) d = (unsigned char)d; while (inf || _gc < n) { auto c = this->_b->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } _gc++; if (T::eq_int_type(c, d)) break; } return *this; }
  I& ignore(streamsize n, C d) { return ignore(n, T::to_int_type(d)); }
  int_type peek() { _gc = 0; sentry s(*this, true); if (!s) return T::eof(); auto c = this->_b->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); return c; }
  I& read(C* b, streamsize n) { _gc = 0; sentry s(*this, true); if (s) { _gc = this->_b->sgetn(b, n); if (_gc != n) this->setstate(ios_base::eofbit | ios_base::failbit); } return *this; }
  streamsize readsome(C* b, streamsize n) { _gc = 0; sentry s(*this, true); if (!s) return 0; streamsize a = this->_b->in_avail(); if (a <= 0) { this->setstate(ios_base::eofbit); return 0; } return _gc = this->_b->sgetn(b, n < a ? n : a); }
  I& unget() { _gc = 0; this->_st &= ~ios_base::eofbit; sentry s(*this, true); if (s) if (T::eq_int_type(this->_b->sungetc(), T::eof())) this->setstate(ios_base::badbit); return *this; }
  I& putback(C c) { _gc = 0; this->_st &= ~ios_base::eofbit; sentry s(*this, true); if (s) if (T::eq_int_type(this->_b->sputbackc(c), T::eof())) this->setstate(ios_base::badbit); return *this; }
  int sync() { return 0; }
  pos_type tellg() { if (this->fail()) return pos_type(off_type(-1)); return pos_type((off_type)this->_b->_g); }
  I& seekg(pos_type p) { this->_st &= ~ios_base::eofbit; if (!this->fail()) if (this->_b->pubseekpos(p, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; }
  I& seekg(off_type o, ios_base::seekdir d) { this->_st &= ~ios_base::eofbit; if (!this->fail()) if (this->_b->pubseekoff(o, d, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; }
protected: basic_istream() {}
};
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: explicit basic_iostream(basic_streambuf<C, T>* b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) {} virtual ~basic_iostream() {}
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
protected: basic_iostream() {} };
// string streams
#define LS_SS(NAME, BASE, DEF) template <class C, class T, class A> class NAME : public BASE<C, T> { basic_stringbuf<C, T, A> _sb; public: typedef basic_string<C, T, A> S_; \
  NAME() { this->init(&_sb); } explicit NAME(ios_base::openmode m) { this->init(&_sb); this->_b->_app = m & (ios_base::app); } explicit NAME(const S_& s, ios_base::openmode m = DEF) : _sb(s) { this->init(&_sb); _sb._app = m & ios_base::app; if (m & (ios_base::ate)) _sb._p = s.size(); } \
  NAME(NAME&& o) { this->init(&_sb); _sb.swap(o._sb); this->_st = o._st; } NAME& operator=(NAME&& o) { _sb.swap(o._sb); this->_st = o._st; return *this; } \
  basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&_sb); } S_ str() const { return _sb._s; } void str(const S_& s) { _sb.str(s); if (_sb._app) _sb._p = s.size(); } };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
LS_SS(basic_stringstream, basic_iostream, ios_base::in | ios_base::out)
LS_SS(basic_istringstream, basic_istream, ios_base::in)
LS_SS(basic_ostringstream, basic_ostream, ios_base::out)
_GLIBCXX_END_NAMESPACE_CXX11
#undef LS_SS
// file streams
#define LS_FS(NAME, BASE, DEF, OR) template <class C, class T> class NAME : public BASE<C, T> { basic_filebuf<C, T> _fb; public: NAME() { this->init(&_fb); } explicit NAME(const char* n, ios_base::openmode m = DEF) { this->init(&_fb); open(n, m); } explicit NAME(const std::string& n, ios_base::openmode m = DEF) { this->init(&_fb); open(n, m); } \
  template <class P, class = decltype(std::declval<const P&>().native())> explicit NAME(const P& n, ios_base::openmode m = DEF) { this->init(&_fb); open(n.native(), m); } \
  NAME(NAME&& o) { this->init(&_fb); _mv(o); } NAME& operator=(NAME&& o) { _fb.close(); _mv(o); return *this; } void _mv(NAME& o) { _fb.swap(o._fb); std::swap(_fb._name, o._fb._name); std::swap(_fb._open, o._fb._open); std::swap(_fb._m, o._fb._m); std::swap(this->_st, o._st); } void swap(NAME& o) { _mv(o); } \
  void open(const std::string& n, ios_base::openmode m = DEF) { if (!_fb.open(n, m | OR)) this->setstate(ios_base::failbit); else this->clear(); } void open(const char* n, ios_base::openmode m = DEF) { open(std::string(n), m); } template <class P, class = decltype(std::declval<const P&>().native())> void open(const P& n, ios_base::openmode m = DEF) { open(n.native(), m); } \
  bool is_open() const { return _fb.is_open(); } void close() { if (!_fb.close()) this->setstate(ios_base::failbit); } basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&_fb); } };
LS_FS(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
LS_FS(basic_ofstream, basic_ostream, ios_base::out, ((m & (ios_base::app | ios_base::in)) ? ios_base::out : (ios_base::out | ios_base::trunc)))
LS_FS(basic_fstream, basic_iostream, ios_base::in | ios_base::out, 0u)
#undef LS_FS
// characters and strings
inline istream& operator>>(istream& i, char& c) { istream::sentry s(i); if (s) { auto x = i.rdbuf()->sbumpc(); if (x != char_traits<char>::eof()) c = (char)x; else i.setstate(ios_base::eofbit | ios_base::failbit); } return i; }
inline istream& operator>>(istream& i, unsigned char& c) { return i >> (char&)c; } inline istream& operator>>(istream& i, signed char& c) { return i >> (char&)c; }
inline istream& operator>>(istream& i, string& o) { istream::sentry s(i); if (!s) return i; o.clear(); auto* b = i.rdbuf(); streamsize w = i.width(); i.width(0); while (w <= 0 || (streamsize)o.size() < w) { if (b->_g >= b->_s.size()) { i.setstate(o.empty() ? (ios_base::eofbit | ios_base::failbit) : ios_base::eofbit); return i; } char c = b->_s[b->_g]; if (ls::is_sp(c)) break; o.push_back(c); b->_g++; } if (o.empty()) i.setstate(ios_base::failbit); return i; }
inline istream& getline(istream& i, string& o, char d) { istream::sentry s(i, true); if (!s) return i; o.clear(); auto* b = i.rdbuf(); bool any = false; while (true) { if (!b->_rd || b->_g >= b->_s.size()) { i.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit)); return i; } char c = b->_s[b->_g++]; any = true; if (c == d) return i; o.push_back(c); } }
inline istream& getline(istream& i, string& o) { return getline(i, o, '\n'); } inline istream& getline(istream&& i, string& o, char d) { return getline(i, o, d); } inline istream& getline(istream&& i, string& o) { return getline(i, o, '\n'); }
inline ostream& operator<<(ostream& o, const string& s) { return o._put(s); } inline ostream& operator<<(ostream& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._nul() ? o : o._put(s); } inline ostream& operator<<(ostream& o, char c) { return o._nul() ? o : o._put(string(1, c)); } inline ostream& operator<<(ostream& o, unsigned char c) { return o << (char)c; } inline ostream& operator<<(ostream& o, signed char c) { return o << (char)c; }
template <class S, class V, class = typename enable_if<is_base_of<ios_base, S>::value && !is_lvalue_reference<S>::value>::type> inline S&& operator<<(S&& s, const V& v) { static_cast<S&>(s) << v; return static_cast<S&&>(s); }
template <class S, class V, class = typename enable_if<is_base_of<ios_base, S>::value && !is_lvalue_reference<S>::value>::type> inline S&& operator>>(S&& s, V&& v) { static_cast<S&>(s) >> std::forward<V>(v); return static_cast<S&&>(s); }
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); return o.flush(); } template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); } template <class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(C()); } template <class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { if (i.good()) i._ws(); return i; }
#define LS_MF(n, set, mask) inline ios_base& n(ios_base& b) { b.setf(set, mask); return b; }
LS_MF(dec, ios_base::dec, ios_base::basefield) LS_MF(hex, ios_base::hex, ios_base::basefield) LS_MF(oct, ios_base::oct, ios_base::basefield) LS_MF(fixed, ios_base::fixed, ios_base::floatfield) LS_MF(scientific, ios_base::scientific, ios_base::floatfield) LS_MF(defaultfloat, 0u, ios_base::floatfield) LS_MF(left, ios_base::left, ios_base::adjustfield) LS_MF(right, ios_base::right, ios_base::adjustfield) LS_MF(internal, ios_base::internal, ios_base::adjustfield) LS_MF(boolalpha, ios_base::boolalpha, ios_base::boolalpha) LS_MF(noboolalpha, 0u, ios_base::boolalpha) LS_MF(skipws, ios_base::skipws, ios_base::skipws) LS_MF(noskipws, 0u, ios_base::skipws) LS_MF(showpos, ios_base::showpos, ios_base::showpos) LS_MF(showbase, ios_base::showbase, ios_base::showbase) LS_MF(uppercase, ios_base::uppercase, ios_base::uppercase) LS_MF(nouppercase, 0u, ios_base::uppercase)
#undef LS_MF
namespace ls_detail { struct Setw { int n; }; struct Setp { int n; }; struct Setf { char c; }; struct Setb { int n; }; }
inline ls_detail::Setw setw(int n) { return {n}; } inline ls_detail::Setp setprecision(int n) { return {n}; } inline ls_detail::Setf setfill(char c) { return {c}; } inline ls_detail::Setb setbase(int n) { return {n}; }
inline ostream& operator<<(ostream& o, ls_detail::Setw s) { o.width(s.n); return o; } inline istream& operator>>(istream& o, ls_detail::Setw s) { o.width(s.n); return o; } inline ostream& operator<<(ostream& o, ls_detail::Setp s) { o.precision(s.n); return o; } inline ostream& operator<<(ostream& o, ls_detail::Setf s) { o.fill(s.c); return o; } inline ostream& operator<<(ostream& o, ls_detail::Setb s) { o.setf(s.n == 16 ? ios_base::hex : s.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
struct ls_nullbuf : basic_streambuf<char, char_traits<char>> { ls_nullbuf() { _null = true; } };
inline ostream& ls_cout() { static ls_nullbuf* b = new ls_nullbuf; static ostream* o = new ostream(b); return *o; } inline istream& ls_cin() { static ls_nullbuf* b = new ls_nullbuf; static istream* o = new istream(b); return *o; }
inline ostream &cout = ls_cout(), &cerr = ls_cout(), &clog = ls_cout(); inline istream& cin = ls_cin();
}
