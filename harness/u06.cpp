// U06: checked narrowing, case conversion, single byte tests
#include "h.h"
#include <kt_utils/Exception.h>
#include <kt_utils/String.h>
using namespace kanji_tools;

namespace {
template <typename T> void narrow(bool wide) {
  const auto x = sym<T>("value");
  const bool ok = static_cast<uint64_t>(x) <= 255;
  int got = -1;
  try {
    got = static_cast<unsigned char>(toChar(x));
  } catch (const RangeError&) { got = -2; }
  (void)wide;
  ksym_observe("got", static_cast<uint64_t>(static_cast<int64_t>(got)));
  ksym_assert(got == (ok ? static_cast<int>(static_cast<uint64_t>(x)) : -2), "the same value or a range error");
}
void ints() {
  const auto x = sym<int>("value");
  const bool neg = ksym_choose(2, "negative");
  const bool ok = x <= 255 && x >= (neg ? -128 : 0);
  int got = -1000;
  try {
    got = static_cast<unsigned char>(neg ? toChar(x) : toChar(x, false));
  } catch (const RangeError&) { got = -2000; }
  ksym_assert(got == (ok ? x & 255 : -2000), "an int keeps its value or is a range error");
  if (neg) {
    int g2 = -1000;
    try {
      g2 = static_cast<unsigned char>(toChar(x, true));
    } catch (const RangeError&) { g2 = -2000; }
    ksym_assert(g2 == got, "negative values are allowed by default");
  }
}
void bytes() {
  const auto u = sym<uint8_t>("value");
  ksym_assert(static_cast<uint8_t>(toChar(u)) == u && toUChar(static_cast<char>(u)) == u, "byte conversions keep the value");
  ksym_assert(isSingleByteChar(static_cast<char>(u)) == (u < 128), "a byte below 128 is a single byte character");
  const auto c = sym<uint32_t>("code");
  ksym_assert(isSingleByteChar(static_cast<Code>(c)) == (c < 128), "a code below 128 is a single byte character");
}
unsigned char lower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
unsigned char upper(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
void cases() {
  constexpr size_t N = TIER ? 6 : 4;
  const String s = symString(ksym_choose(N + 1, "length"), "text", true);
  String l = s, u = s, fl = s, fu = s;
  for (auto& c : l) c = static_cast<char>(lower(static_cast<unsigned char>(c)));
  for (auto& c : u) c = static_cast<char>(upper(static_cast<unsigned char>(c)));
  if (!s.empty()) fl[0] = l[0], fu[0] = u[0];
  switch (ksym_choose(4, "function")) {
  case 0: ksym_assert(same(toLower(s), l), "toLower changes exactly the Ascii letters"); break;
  case 1: ksym_assert(same(toUpper(s), u), "toUpper changes exactly the Ascii letters"); break;
  case 2: ksym_assert(same(firstLower(s), fl), "firstLower changes exactly the first letter"); break;
  default: ksym_assert(same(firstUpper(s), fu), "firstUpper changes exactly the first letter");
  }
}
void tests() {
  constexpr size_t N = TIER ? 6 : 4;
  const String s = symString(ksym_choose(N + 1, "length"), "text", true);
  bool all = true, any = false;
  for (auto c : s) {
    const bool one = static_cast<unsigned char>(c) < 128;
    all &= one;
    any |= one;
  }
  CodeString t;
  for (size_t i = 0; i < s.size(); ++i) t += static_cast<Code>(sym<uint32_t>("code"));
  bool allC = true, anyC = false;
  for (auto c : t) { allC &= c < 128; anyC |= c < 128; }
  switch (ksym_choose(3, "function")) {
  case 0:
    ksym_assert(isAllSingleByte(s) == all, "all single byte");
    ksym_assert(isAllSingleByte(t) == allC, "all single byte codes");
    break;
  case 1:
    ksym_assert(isAnySingleByte(s) == any, "any single byte");
    ksym_assert(isAnySingleByte(t) == anyC, "any single byte code");
    break;
  default:
    const bool f = !s.empty() && static_cast<unsigned char>(s[0]) < 128, fc = !t.empty() && t[0] < 128;
    ksym_assert(isSingleByte(s) == (f && s.size() == 1) && isSingleByte(s, false) == f, "first single byte");
    ksym_assert(isSingleByte(t) == (fc && t.size() == 1) && isSingleByte(t, false) == fc, "first single byte code");
  }
}
}
extern "C" void ksym_main() {
  switch (ksym_choose(8, "case")) {
  case 0: narrow<uint16_t>(false); break;
  case 1: narrow<uint32_t>(true); break;
  case 2: narrow<size_t>(true); break;
  case 3: narrow<Code>(true); break;
  case 4: ints(); break;
  case 5: bytes(); break;
  case 6: cases(); break;
  default: tests();
  }
}
