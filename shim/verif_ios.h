// Minimal stand-ins for the iostream headers, used only when the code under
// test is lowered for symbolic execution (libstdc++'s stream bodies live in
// the shared library and have no IR).  Semantics: an ostream appends to a
// string; ifstream reads the in-memory file the harness installed.
#ifndef VERIF_IOS_H
#define VERIF_IOS_H
#include <cstdint>
#include <iosfwd>
#include <streambuf>
#include <string>
extern "C" {
extern const char* verif_file_data;
extern unsigned long verif_file_len;
extern bool verif_file_ok;
}
namespace std {
struct verif_ios_state { bool hexmode = false; int width = 0; char fill = ' '; bool bad = false; };
template <class C, class T>
class basic_ios : public verif_ios_state {
 public:
  C widen(char c) const { return c; }
};
template <class C, class T>
class basic_ostream : virtual public basic_ios<C, T> {
 public:
  basic_string<C, T> data_;
  basic_ostream() {}
  basic_ostream& put_(const char* s, size_t n) {
    int w = this->width;
    this->width = 0;
    for (size_t k = n; (int)k < w; k++) data_.push_back(this->fill);
    data_.append(s, n);
    return *this;
  }
  basic_ostream& num_(unsigned long long v, bool neg) {
    char b[24];
    int k = 24;
    unsigned base = this->hexmode ? 16 : 10;
    do { unsigned dgt = (unsigned)(v % base); b[--k] = (char)(dgt < 10 ? '0' + dgt : 'a' + dgt - 10); v /= base; } while (v);
    if (neg) b[--k] = '-';
    return put_(b + k, 24 - k);
  }
  basic_ostream& snum_(long long v) {
    if (v < 0 && !this->hexmode) return num_(0 - (unsigned long long)v, true);
    return num_((unsigned long long)v, false);
  }
  basic_ostream& operator<<(int v) { return this->hexmode ? num_((unsigned)v, false) : snum_(v); }
  basic_ostream& operator<<(unsigned v) { return num_(v, false); }
  basic_ostream& operator<<(long v) { return snum_(v); }
  basic_ostream& operator<<(unsigned long v) { return num_(v, false); }
  basic_ostream& operator<<(long long v) { return snum_(v); }
  basic_ostream& operator<<(unsigned long long v) { return num_(v, false); }
  basic_ostream& operator<<(short v) { return snum_(v); }
  basic_ostream& operator<<(unsigned short v) { return num_(v, false); }
  basic_ostream& operator<<(bool v) { return num_(v, false); }
  basic_ostream& operator<<(double) { return put_("?", 1); }
  basic_ostream& operator<<(const void*) { return put_("?", 1); }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) {
    if (f == (ios_base & (*)(ios_base&)) & std::hex) this->hexmode = true;
    if (f == (ios_base & (*)(ios_base&)) & std::dec) this->hexmode = false;
    return *this;
  }
  basic_ostream& flush() { return *this; }
  basic_ostream& write(const C* s, long n) { data_.append(s, n); return *this; }
};
inline ostream& operator<<(ostream& o, const char* s) { size_t n = 0; while (s[n]) n++; return o.put_(s, n); }
inline ostream& operator<<(ostream& o, char c) { return o.put_(&c, 1); }
inline ostream& operator<<(ostream& o, unsigned char c) { char d = (char)c; return o.put_(&d, 1); }
inline ostream& operator<<(ostream& o, const string& s) { return o.put_(s.data(), s.size()); }
template <class C, class T>
basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o; }
template <class C, class T>
basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template <class C, class T>
class basic_istream : virtual public basic_ios<C, T> {
 public:
  bool eof_ = false, fail_ = false;
  const C* p_ = nullptr;
  size_t n_ = 0, pos_ = 0;
  explicit operator bool() const { return !fail_; }
  bool operator!() const { return fail_; }
  bool good() const { return !fail_ && !eof_; }
  bool fail() const { return fail_; }
  bool eof() const { return eof_; }
};
template <>
inline basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str, char delim) {
  str.clear();
  if (in.fail_ || in.eof_) { in.fail_ = true; return in; }
  bool any = false;
  while (in.pos_ < in.n_) {
    char c = in.p_[in.pos_++];
    any = true;
    if (c == delim) return in;
    str.push_back(c);
  }
  in.eof_ = true;
  if (!any) in.fail_ = true;
  return in;
}
template <class C, class T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
inline namespace __cxx11 {
template <class C, class T, class A>
class basic_stringstream : public basic_iostream<C, T> {
 public:
  basic_stringstream() {}
  basic_string<C, T, A> str() const { return this->data_; }
};
template <class C, class T, class A>
class basic_ostringstream : public basic_ostream<C, T> {
 public:
  basic_string<C, T, A> str() const { return this->data_; }
};
}  // namespace __cxx11
template <class C, class T>
class basic_ifstream : public basic_istream<C, T> {
 public:
  explicit basic_ifstream(const string&) { open_(); }
  explicit basic_ifstream(const char*) { open_(); }
  void open_() {
    this->p_ = verif_file_data;
    this->n_ = verif_file_len;
    if (!verif_file_ok) this->fail_ = true;
  }
  bool is_open() const { return verif_file_ok; }
  void close() {}
};
extern ostream cout, cerr;
struct verif_setw { int n; };
struct verif_setfill { char c; };
inline verif_setw setw(int n) { return {n}; }
inline verif_setfill setfill(char c) { return {c}; }
inline ostream& operator<<(ostream& o, verif_setw s) { o.width = s.n; return o; }
inline ostream& operator<<(ostream& o, verif_setfill s) { o.fill = s.c; return o; }
}  // namespace std
#endif
