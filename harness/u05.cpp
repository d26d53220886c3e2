// U05: number formatting; U06 is in u06.cpp
#include "h.h"
#include <kt_utils/String.h>
#include <kt_utils/Utf8.h>
using namespace kanji_tools;

namespace {
const BracketType Br[]{BracketType::Curly, BracketType::Round, BracketType::Square, BracketType::None};
const char *Open = "{([", *Close = "})]";

// remove the expected brackets
String inner(const String& s, unsigned b) {
  if (b == 3) return s;
  const bool ok = s.size() >= 2 && s.front() == Open[b] && s.back() == Close[b];
  ksym_assert(ok, "exactly one matching pair of brackets");
  return ok ? s.substr(1, s.size() - 2) : s;
}
void number(const String& s, uint64_t x, unsigned base, bool upper, size_t min, const char* l) {
  uint64_t v = 0;
  bool digits = true;
  for (const char ch : s) {
    const auto c = static_cast<unsigned char>(ch);
    const bool d = (c >= '0') & (c < '0' + (base < 10 ? base : 10));
    const unsigned a = upper ? 'A' : 'a';
    const bool h = (base == 16) & (c >= a) & (c < a + 6);
    digits &= d | h;
    v = v * base + (h ? c - a + 10u : c - '0');
  }
  ksym_assert(digits, "only digits of the base and case");
  ksym_assert(v == x, l);
  ksym_assert(s.size() >= min, "not shorter than the requested width");
  ksym_assert(s.size() == min || (s[0] != '0'), "padded only up to the width");
}
template <typename T> void format() {
  const auto x = sym<T>("value");
  const unsigned b = ksym_choose(4, "bracket");
  // none given, or a width below, at and above the natural width
  static const size_t widths[]{0, 1, sizeof(T), sizeof(T) * 2, sizeof(T) * 8, sizeof(T) * 8 + 3};
  const size_t m = widths[ksym_choose(6, "width")];
  if (ksym_choose(2, "base")) {
    const bool up = ksym_choose(2, "upper");
    const auto s = inner(toHex(x, Br[b], up ? HexCase::Upper : HexCase::Lower, m), b);
    number(s, x, 16, up, m ? m : sizeof(T) * 2, "hexadecimal text denotes the value");
    if (b == 3) {
      ksym_assert(same(s, toHex(x, up ? HexCase::Upper : HexCase::Lower, m)), "hex overload without brackets");
      if (!up) ksym_assert(same(s, toHex(x, m)), "hex overload with lower case");
    } else if (!up) ksym_assert(same(s, inner(toHex(x, Br[b], m), b)), "hex overload with brackets");
    obs("hex", s);
  } else {
    const auto s = inner(toBinary(x, Br[b], m), b);
    number(s, x, 2, false, m ? m : sizeof(T) * 8, "binary text denotes the value");
    if (b == 3) ksym_assert(same(s, toBinary(x, m)), "binary overload without brackets");
    obs("bin", s);
  }
}
void chars() {
  const auto x = static_cast<char>(sym<uint8_t>("value"));
  const auto u = static_cast<uint8_t>(x);
  ksym_assert(same(toHex(x, BracketType::None, HexCase::Upper, 0), toHex(u, HexCase::Upper)), "hex of a char");
  ksym_assert(same(toBinary(x, BracketType::None, 0), toBinary(u)), "binary of a char");
}
void zeroes() {
  const String s = symString(ksym_choose(4, "length"), "text");
  const size_t m = ksym_choose(7, "min");
  String w = s;
  while (w.size() < m) w.insert(w.begin(), '0');
  if (w.empty()) w = "0";
  ksym_assert(same(addLeadingZeroes(s, m), w), "leading zeroes");
  Codes c, cw;
  for (auto x : s) c += static_cast<char32_t>(static_cast<unsigned char>(x));
  for (auto x : w) cw += static_cast<char32_t>(static_cast<unsigned char>(x));
  ksym_assert(sameCodes(addLeadingZeroes(CodeString{c}, m), cw), "leading zeroes of codes");
  const unsigned b = ksym_choose(4, "bracket");
  ksym_assert(same(inner(addBrackets(s, Br[b]), b), s), "brackets keep the text");
  ksym_assert(addBrackets(s, Br[b]).size() == s.size() + (b < 3 ? 2 : 0), "brackets add nothing else");
}
String one(uint32_t c) { // independent formatting of a code
  String r;
  for (int i = 7; i >= 0; --i) {
    const unsigned d = c >> (4 * i) & 15;
    if (!r.empty() || i < 4 || d) r += static_cast<char>(d < 10 ? '0' + d : 'A' + d - 10);
  }
  return r;
}
void unicode() {
  const unsigned b = ksym_choose(4, "bracket");
  const auto c = sym<uint32_t>("code");
  const String s = inner(toUnicode(static_cast<Code>(c), Br[b]), b);
  ksym_assert(same(s, one(c)), "the Unicode form of a code");
}
void list() {
  const unsigned b = ksym_choose(4, "bracket");
  const size_t n = ksym_choose(TIER ? 4 : 3, "chars");
  CodeString t;
  const bool text = ksym_choose(2, "form");
  String w, u;
  for (size_t i = 0; i < n; ++i) {
    const auto c = sym<uint32_t>("code");
    if (text) {
      ksym_assume(scalar(c) & (c != 0)); // a text ends at a zero
      u += encode(c);
    } else t += static_cast<char32_t>(c);
    if (i) w += ' ';
    w += one(c);
  }
  if (text) ksym_assert(same(inner(toUnicode(u, Br[b]), b), w), "the codes of a text in order");
  else ksym_assert(same(inner(toUnicode(t, Br[b]), b), w), "the codes of a code string in order");
}
}
extern "C" void ksym_main() {
  switch (ksym_choose(8, "case")) {
  case 0: format<uint8_t>(); break;
  case 1: format<uint16_t>(); break;
  case 2: format<uint32_t>(); break;
  case 3: format<uint64_t>(); break;
  case 4: chars(); break;
  case 5: zeroes(); break;
  case 6: unicode(); break;
  default: list();
  }
}
