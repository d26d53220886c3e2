// wide regular expressions without locale objects ("C" locale: only ASCII
// characters are in classes, every character is its own equivalence class)
#pragma once
#ifdef KSYM_IR
#include <cstring>
#include <cwchar>
#include <regex>
namespace std {
template <> inline bool regex_traits<wchar_t>::isctype(wchar_t c, char_class_type f) const {
  using B = ctype_base;
  const auto in = [c](wchar_t a, wchar_t b) { return (c >= a) & (c <= b); };
  bool r = false;
  const auto m = f._M_base;
  if (m & B::upper) r |= in('A', 'Z');
  if (m & B::lower) r |= in('a', 'z');
  if (m & B::alpha) r |= in('A', 'Z') | in('a', 'z');
  if (m & B::digit) r |= in('0', '9');
  if (m & B::xdigit) r |= in('0', '9') | in('A', 'F') | in('a', 'f');
  if (m & B::space) r |= in(9, 13) | (c == ' ');
  if (m & B::print) r |= in(32, 126);
  if (m & B::cntrl) r |= in(0, 31) | (c == 127);
  if (m & B::punct) r |= in(33, 47) | in(58, 64) | in(91, 96) | in(123, 126);
  if (m & B::blank) r |= (c == ' ') | (c == 9);
  if (f._M_extended & 1) r |= c == '_';
  return r;
}
template <> inline int regex_traits<wchar_t>::value(wchar_t c, int radix) const {
  int d = -1;
  if (c >= '0' && c <= '9') d = c - '0';
  if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
  if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
  return d < radix ? d : -1;
}
template <> template <> inline wstring regex_traits<wchar_t>::transform_primary<wchar_t*>(wchar_t* a, wchar_t* b) const { return {a, b}; }
template <> template <> inline wstring regex_traits<wchar_t>::transform_primary<const wchar_t*>(const wchar_t* a, const wchar_t* b) const { return {a, b}; }
}
#endif
