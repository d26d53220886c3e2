// helpers shared by the harnesses
#pragma once
#include "ksym.h"
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>

using Bytes = std::string;
using Codes = std::u32string;

// n arbitrary bytes (zero allowed) in a block of exactly n+1 bytes, the last of
// them zero: any access beyond the terminator is a memory violation
struct CText {
  char* p;
  size_t n;
  CText(size_t n_, const char* name, bool zero = false) : p{new char[n_ + 1]}, n{n_} {
    if (n) ksym_symbolic(p, n, name);
    p[n] = 0;
    if (!zero)
      for (size_t i = 0; i < n; ++i) ksym_assume(p[i] != 0);
  }
  ~CText() { delete[] p; }
  CText(const CText&) = delete;
};
template <typename T> T sym(const char* name) {
  T x{};
  ksym_symbolic(&x, sizeof x, name);
  return x;
}
inline bool symBool(const char* name) {
  unsigned char c = 0;
  ksym_symbolic(&c, 1, name);
  ksym_assume(c < 2);
  return c != 0;
}
// std::string of exactly n arbitrary bytes
inline Bytes symString(size_t n, const char* name, bool zero = false) {
  Bytes s(n, 'x');
  if (n) ksym_symbolic(s.data(), n, name);
  if (!zero)
    for (size_t i = 0; i < n; ++i) ksym_assume(s[i] != 0);
  return s;
}
// value that does not split paths: sum of a condition
inline void obs(const char* n, const Bytes& s) { ksym_observe_bytes(n, s.data(), s.size()); }
inline void obs(const char* n, uint64_t v) { ksym_observe(n, v); }

// branch-free comparison of two byte strings
inline bool same(const Bytes& a, const Bytes& b) {
  return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size()) == 0);
}
template <typename S> bool sameCodes(const S& a, const Codes& b) {
  if (a.size() != b.size()) return false;
  uint32_t d = 0;
  for (size_t i = 0; i < a.size(); ++i) d |= static_cast<uint32_t>(a[i]) ^ static_cast<uint32_t>(b[i]);
  return d == 0;
}
// out-of-range style outcome of a call
enum Outcome { Value, Range, Domain, Other };
template <typename F> Outcome outcome(F f);

// --------------------------------------------------------- UTF-8 by definition
// one item of the text at p (never zero): how many bytes it takes and its code
// (0xfffd if the bytes are not a well-formed sequence)
struct Item { size_t len; uint32_t code; bool ok; };
inline Item item(const unsigned char* p) {
  const unsigned b = p[0];
  if (b < 0x80) return {1, b, true};
  if (b < 0xc0 || b >= 0xf8) return {1, 0xfffd, false};
  const size_t want = b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4;
  uint32_t v = b & (0x7fu >> want);
  size_t k = 1;
  for (; k < want; ++k) {
    if (p[k] < 0x80 || p[k] >= 0xc0) return {k, 0xfffd, false};
    v = v * 64 + (p[k] - 0x80u);
  }
  const bool good = want == 2 ? v >= 0x80
                  : want == 3 ? v >= 0x800 && !(v >= 0xd800 && v <= 0xdfff)
                              : v >= 0x10000 && v <= 0x10ffff;
  return {want, good ? v : 0xfffd, good};
}
inline Bytes encode(uint32_t c) {
  if (c < 0x80) return Bytes(1, static_cast<char>(c));
  if (c < 0x800) return {static_cast<char>(0xc0 + (c >> 6)), static_cast<char>(0x80 + (c & 63))};
  if (c < 0x10000)
    return {static_cast<char>(0xe0 + (c >> 12)), static_cast<char>(0x80 + (c >> 6 & 63)), static_cast<char>(0x80 + (c & 63))};
  return {static_cast<char>(0xf0 + (c >> 18)), static_cast<char>(0x80 + (c >> 12 & 63)),
      static_cast<char>(0x80 + (c >> 6 & 63)), static_cast<char>(0x80 + (c & 63))};
}
inline bool scalar(uint32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }

// an arbitrary well-formed character of n bytes
inline Bytes symChar(size_t n, const char* name) {
  Bytes s = symString(n, name, true);
  const auto b = [&s](size_t i) { return static_cast<unsigned char>(s[i]); };
  if (n == 1) ksym_assume(b(0) != 0 && b(0) < 0x80);
  else {
    ksym_assume(b(0) >= (n == 2 ? 0xc2 : n == 3 ? 0xe0 : 0xf0) && b(0) <= (n == 2 ? 0xdf : n == 3 ? 0xef : 0xf4));
    for (size_t i = 1; i < n; ++i) ksym_assume(b(i) >= 0x80 && b(i) <= 0xbf);
    // decided case by case so that no fact is about two bytes at once
    if (n == 3 && ksym_concretize(b(0) == 0xe0)) ksym_assume(b(1) >= 0xa0);
    if (n == 3 && ksym_concretize(b(0) == 0xed)) ksym_assume(b(1) < 0xa0);
    if (n == 4 && ksym_concretize(b(0) == 0xf0)) ksym_assume(b(1) >= 0x90);
    if (n == 4 && ksym_concretize(b(0) == 0xf4)) ksym_assume(b(1) < 0x90);
  }
  return s;
}
// an arbitrary code point of the block 0x3040..0x30ff
inline Bytes symKana(const char* name) {
  Bytes s = symString(3, name, true);
  const auto b = [&s](size_t i) { return static_cast<unsigned char>(s[i]); };
  ksym_assume(b(0) == 0xe3);
  ksym_assume(b(1) >= 0x81 && b(1) <= 0x83);
  ksym_assume(b(2) >= 0x80 && b(2) <= 0xbf);
  return s;
}
