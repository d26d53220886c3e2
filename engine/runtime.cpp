// IR replacements for C and C++ library functions that exist only as native
// code ("C" locale semantics). Only linked into the symbolic build.
#include "ksym.h"
#include <cerrno>
#include <climits>
#include <iomanip>
#include <istream>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>

void ksym_unsupported(); // stops the path, never native
// stream classes as IR (the library only has them as native code)
namespace std {
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class __cxx11::basic_stringbuf<char>;
template class __cxx11::basic_istringstream<char>;
template class __cxx11::basic_ostringstream<char>;
template class __cxx11::basic_stringstream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
template ostream& endl(ostream&);
template ostream& flush(ostream&);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, const char*);
template ostream& ostream::_M_insert(long);
template ostream& ostream::_M_insert(unsigned long);
template istream& ws(istream&);
}

extern "C" {
int kr_isdigit(int c) { return static_cast<unsigned>(c) - '0' < 10; }
int kr_isupper(int c) { return static_cast<unsigned>(c) - 'A' < 26; }
int kr_islower(int c) { return static_cast<unsigned>(c) - 'a' < 26; }
int kr_isalpha(int c) { return (static_cast<unsigned>(c) | 32) - 'a' < 26; }
int kr_isalnum(int c) { return kr_isdigit(c) | kr_isalpha(c); }
int kr_isxdigit(int c) { return kr_isdigit(c) | ((static_cast<unsigned>(c) | 32) - 'a' < 6); }
int kr_isspace(int c) { return (c == ' ') | (static_cast<unsigned>(c) - '\t' < 5); }
int kr_isprint(int c) { return static_cast<unsigned>(c) - 32 < 95; }
int kr_ispunct(int c) { return (static_cast<unsigned>(c) - 33 < 94) & !kr_isalnum(c); }
int kr_toupper(int c) { return kr_islower(c) ? c - 32 : c; }
int kr_tolower(int c) { return kr_isupper(c) ? c + 32 : c; }

static unsigned long scan(const char* s, char** end, int base, bool sgn) {
  const char* p = s;
  while (kr_isspace(static_cast<unsigned char>(*p))) ++p;
  bool neg = false;
  if (*p == '-') { neg = true; ++p; }
  else if (*p == '+') ++p;
  const auto digit = [base](char ch) {
    const unsigned c = static_cast<unsigned char>(ch);
    unsigned d = 99;
    if (c - '0' < 10) d = c - '0';
    else if ((c | 32) - 'a' < 26) d = (c | 32) - 'a' + 10;
    return d < static_cast<unsigned>(base) ? static_cast<int>(d) : -1;
  };
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X')) {
    const int b = base;
    base = 16;
    if (digit(p[2]) >= 0) p += 2; else base = b ? b : 8;
  }
  if (base == 0) base = *p == '0' ? 8 : 10;
  bool any = false, over = false;
  unsigned long v = 0;
  for (int d; (d = digit(*p)) >= 0; ++p) {
    any = true;
    const unsigned long q = ULONG_MAX / static_cast<unsigned long>(base), r = ULONG_MAX % static_cast<unsigned long>(base);
    over |= (v > q) | ((v == q) & (static_cast<unsigned long>(d) > r));
    v = v * static_cast<unsigned long>(base) + static_cast<unsigned long>(d);
  }
  if (end) *end = const_cast<char*>(any ? p : s);
  if (!sgn) {
    if (over) { errno = ERANGE; return ULONG_MAX; }
    return neg ? -v : v;
  }
  const unsigned long lim = static_cast<unsigned long>(LONG_MAX) + (neg ? 1 : 0);
  if (over || v > lim) { errno = ERANGE; return neg ? static_cast<unsigned long>(LONG_MIN) : static_cast<unsigned long>(LONG_MAX); }
  return neg ? -v : v;
}
long kr_strtol(const char* s, char** e, int b) { return static_cast<long>(scan(s, e, b, true)); }
unsigned long kr_strtoul(const char* s, char** e, int b) { return scan(s, e, b, false); }
long long kr_strtoll(const char* s, char** e, int b) { return static_cast<long>(scan(s, e, b, true)); }
unsigned long long kr_strtoull(const char* s, char** e, int b) { return scan(s, e, b, false); }

std::istream* kr_getline(std::istream& in, std::string& str, char delim) {
  using T = std::char_traits<char>;
  std::ios_base::iostate err = std::ios_base::goodbit;
  size_t n = 0;
  const std::istream::sentry cerb(in, true);
  if (cerb) {
    str.erase();
    auto* b = in.rdbuf();
    for (int c = b->sgetc();; c = b->snextc()) {
      if (c == T::eof()) { err |= std::ios_base::eofbit; break; }
      if (T::to_char_type(c) == delim) { ++n; b->sbumpc(); break; }
      str += T::to_char_type(c);
      ++n;
    }
  }
  if (!n) err |= std::ios_base::failbit;
  if (err) in.setstate(err);
  return &in;
}
std::istream* kr_extract_string(std::istream& in, std::string& str) {
  using T = std::char_traits<char>;
  std::ios_base::iostate err = std::ios_base::goodbit;
  size_t n = 0;
  const std::istream::sentry cerb(in, false);
  if (cerb) {
    str.erase();
    const auto w = in.width();
    const size_t lim = w > 0 ? static_cast<size_t>(w) : static_cast<size_t>(-1);
    auto* b = in.rdbuf();
    for (int c = b->sgetc(); n < lim; c = b->snextc()) {
      if (c == T::eof()) { err |= std::ios_base::eofbit; break; }
      if (kr_isspace(c)) break;
      str += T::to_char_type(c);
      ++n;
    }
    in.width(0);
  }
  if (!n) err |= std::ios_base::failbit;
  if (err) in.setstate(err);
  return &in;
}
// decimal numbers (num_get::do_get for unsigned types)
static unsigned long extract(std::istream& in, unsigned long max) {
  using T = std::char_traits<char>;
  std::ios_base::iostate err = std::ios_base::goodbit;
  unsigned long v = 0;
  const std::istream::sentry cerb(in, false);
  if (!cerb) return 0;
  if ((in.flags() & std::ios_base::basefield) != std::ios_base::dec) __builtin_trap();
  auto* b = in.rdbuf();
  int c = b->sgetc();
  bool neg = false, any = false, over = false;
  if (c == '-' || c == '+') {
    neg = c == '-';
    c = b->snextc();
  }
  for (; c != T::eof() && static_cast<unsigned>(c) - '0' < 10; c = b->snextc()) {
    const unsigned long d = static_cast<unsigned>(c) - '0';
    any = true;
    over = over | (v > max / 10) | ((v == max / 10) & (d > max % 10));
    v = v * 10 + d;
  }
  if (c == T::eof()) err |= std::ios_base::eofbit;
  if (!any) {
    v = 0;
    err |= std::ios_base::failbit;
  } else if (over) {
    v = max;
    err |= std::ios_base::failbit;
  } else if (neg)
    v = -v;
  if (err) in.setstate(err);
  return v;
}
std::istream* kr_istream_ushort(std::istream& in, unsigned short& x) {
  x = static_cast<unsigned short>(extract(in, 65535));
  return &in;
}
std::istream* kr_istream_uint(std::istream& in, unsigned& x) {
  x = static_cast<unsigned>(extract(in, UINT_MAX));
  return &in;
}
std::istream* kr_istream_ulong(std::istream& in, unsigned long& x) {
  x = extract(in, ULONG_MAX);
  return &in;
}
std::ostream* kr_ostream_insert(std::ostream& out, const char* s, long n) {
  const std::ostream::sentry cerb(out);
  if (cerb) {
    const auto w = out.width();
    const bool left = (out.flags() & std::ios_base::adjustfield) == std::ios_base::left;
    auto* b = out.rdbuf();
    bool ok = true;
    const char f = w > n ? out.fill() : ' ';
    if (!left)
      for (auto i = n; i < w && ok; ++i) ok = b->sputc(f) != std::char_traits<char>::eof();
    if (ok) ok = b->sputn(s, n) == n;
    if (left)
      for (auto i = n; i < w && ok; ++i) ok = b->sputc(f) != std::char_traits<char>::eof();
    if (!ok) out.setstate(std::ios_base::badbit);
    out.width(0);
  }
  return &out;
}
static std::ostream* number(std::ostream& out, unsigned long v, bool neg) {
  const auto base = out.flags() & std::ios_base::basefield;
  const unsigned long b = base == std::ios_base::hex ? 16 : base == std::ios_base::oct ? 8 : 10;
  char buf[72];
  char* p = buf + sizeof buf;
  do {
    *--p = ((out.flags() & std::ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef")[v % b];
    v /= b;
  } while (v);
  if (neg) *--p = '-';
  else if (out.flags() & std::ios_base::showpos) *--p = '+';
  return kr_ostream_insert(out, p, buf + sizeof buf - p);
}
// fixed notation with up to 3 places, correctly rounded (ties to even)
std::ostream* kr_ostream_double(std::ostream& out, double d) {
  const auto places = out.precision();
  if ((out.flags() & std::ios_base::floatfield) != std::ios_base::fixed || places > 3 || !(d >= 0 && d < 1e12)) {
    ksym_unsupported();
    return &out;
  }
  unsigned long bits;
  __builtin_memcpy(&bits, &d, sizeof bits);
  const int e = static_cast<int>(bits >> 52) - 1075; // value is m * 2^e
  unsigned long m = bits & 0xfffffffffffffUL, unit = 1;
  if (bits >> 52) m |= 1UL << 52;
  for (long i = 0; i < places; ++i) unit *= 10;
  m *= unit;
  unsigned long q = 0;
  if (e >= 0) q = m << e; // never: the value is below 2^40
  else if (e > -64) {
    q = m >> -e;
    const unsigned long rest = m - (q << -e), half = 1UL << (-e - 1);
    if (rest > half || (rest == half && (q & 1))) ++q;
  }
  char buf[40];
  char* p = buf + sizeof buf;
  for (long i = 0; i < places; ++i, q /= 10) *--p = static_cast<char>('0' + q % 10);
  if (places) *--p = '.';
  do *--p = static_cast<char>('0' + q % 10);
  while (q /= 10);
  return kr_ostream_insert(out, p, buf + sizeof buf - p);
}
std::ostream* kr_ostream_ulong(std::ostream& out, unsigned long v) { return number(out, v, false); }
std::ostream* kr_ostream_long(std::ostream& out, long v) {
  const bool dec = !(out.flags() & (std::ios_base::hex | std::ios_base::oct));
  return number(out, dec && v < 0 ? -static_cast<unsigned long>(v) : static_cast<unsigned long>(v), dec && v < 0);
}
}

// keep the replacements in the module
using Keep = void (*)();
#define KEEP(f) reinterpret_cast<Keep>(f)
extern "C" Keep ksym_keep[];
Keep ksym_keep[]{KEEP(kr_isdigit), KEEP(kr_isupper), KEEP(kr_islower), KEEP(kr_isalpha),
    KEEP(kr_isalnum), KEEP(kr_isxdigit), KEEP(kr_isspace), KEEP(kr_isprint), KEEP(kr_ispunct),
    KEEP(kr_toupper), KEEP(kr_tolower), KEEP(kr_strtol), KEEP(kr_strtoul), KEEP(kr_strtoll),
    KEEP(kr_strtoull), KEEP(kr_getline), KEEP(kr_extract_string),
    KEEP(kr_ostream_insert), KEEP(kr_ostream_ulong), KEEP(kr_ostream_long),
    KEEP(kr_istream_ushort), KEEP(kr_istream_uint), KEEP(kr_istream_ulong), KEEP(kr_ostream_double)};

// the native side of the harness interface: only reached from ksym_setup
extern "C" {
__attribute__((weak)) void ksym_setup() {}
}
