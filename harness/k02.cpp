// K02: display width
#include "h.h"
#include <iomanip>
#include <sstream>
#include <kt_kana/DisplaySize.h>
#include <kt_utils/Utf8.h>
using namespace kanji_tools;

namespace {
// the published wide blocks and the non-spacing marks, written down here
struct R { uint32_t a, b; };
const R Wide[]{
    {0x1100, 0x115F}, {0x231A, 0x231B}, {0x2329, 0x232A}, {0x23E9, 0x23EC}, {0x23F0, 0x23F0}, {0x23F3, 0x23F3},
    {0x25FD, 0x25FE}, {0x2614, 0x2615}, {0x2648, 0x2653}, {0x267F, 0x267F}, {0x2693, 0x2693}, {0x26A1, 0x26A1},
    {0x26AA, 0x26AB}, {0x26BD, 0x26BE}, {0x26C4, 0x26C5}, {0x26CE, 0x26CE}, {0x26D4, 0x26D4}, {0x26EA, 0x26EA},
    {0x26F2, 0x26F3}, {0x26F5, 0x26F5}, {0x26FA, 0x26FA}, {0x26FD, 0x26FD}, {0x2705, 0x2705}, {0x270A, 0x270B},
    {0x2728, 0x2728}, {0x274C, 0x274C}, {0x274E, 0x274E}, {0x2753, 0x2755}, {0x2757, 0x2757}, {0x2795, 0x2797},
    {0x27B0, 0x27B0}, {0x27BF, 0x27BF}, {0x2B1B, 0x2B1C}, {0x2B50, 0x2B50}, {0x2B55, 0x2B55}, {0x2E80, 0x2E99},
    {0x2E9B, 0x2EF3}, {0x2F00, 0x2FD5}, {0x2FF0, 0x2FFB}, {0x3000, 0x303E}, {0x3041, 0x3096}, {0x3099, 0x30FF},
    {0x3105, 0x312F}, {0x3131, 0x318E}, {0x3190, 0x31E3}, {0x31F0, 0x321E}, {0x3220, 0x3247}, {0x3250, 0x4DBF},
    {0x4E00, 0xA48C}, {0xA490, 0xA4C6}, {0xA960, 0xA97C}, {0xAC00, 0xD7A3}, {0xF900, 0xFAFF}, {0xFE10, 0xFE19},
    {0xFE30, 0xFE52}, {0xFE54, 0xFE66}, {0xFE68, 0xFE6B}, {0xFF01, 0xFF60}, {0xFFE0, 0xFFE6}, {0x16FE0, 0x16FE4},
    {0x16FF0, 0x16FF1}, {0x17000, 0x187F7}, {0x18800, 0x18CD5}, {0x18D00, 0x18D08}, {0x1AFF0, 0x1AFF3},
    {0x1AFF5, 0x1AFFB}, {0x1AFFD, 0x1AFFE}, {0x1B000, 0x1B122}, {0x1B150, 0x1B152}, {0x1B164, 0x1B167},
    {0x1B170, 0x1B2FB}, {0x1F004, 0x1F004}, {0x1F0CF, 0x1F0CF}, {0x1F18E, 0x1F18E}, {0x1F191, 0x1F19A},
    {0x1F200, 0x1F202}, {0x1F210, 0x1F23B}, {0x1F240, 0x1F248}, {0x1F250, 0x1F251}, {0x1F260, 0x1F265},
    {0x1F300, 0x1F320}, {0x1F32D, 0x1F335}, {0x1F337, 0x1F37C}, {0x1F37E, 0x1F393}, {0x1F3A0, 0x1F3CA},
    {0x1F3CF, 0x1F3D3}, {0x1F3E0, 0x1F3F0}, {0x1F3F4, 0x1F3F4}, {0x1F3F8, 0x1F43E}, {0x1F440, 0x1F440},
    {0x1F442, 0x1F4FC}, {0x1F4FF, 0x1F53D}, {0x1F54B, 0x1F54E}, {0x1F550, 0x1F567}, {0x1F57A, 0x1F57A},
    {0x1F595, 0x1F596}, {0x1F5A4, 0x1F5A4}, {0x1F5FB, 0x1F64F}, {0x1F680, 0x1F6C5}, {0x1F6CC, 0x1F6CC},
    {0x1F6D0, 0x1F6D2}, {0x1F6D5, 0x1F6D7}, {0x1F6DD, 0x1F6DF}, {0x1F6EB, 0x1F6EC}, {0x1F6F4, 0x1F6FC},
    {0x1F7E0, 0x1F7EB}, {0x1F7F0, 0x1F7F0}, {0x1F90C, 0x1F93A}, {0x1F93C, 0x1F945}, {0x1F947, 0x1F9FF},
    {0x1FA70, 0x1FA74}, {0x1FA78, 0x1FA7C}, {0x1FA80, 0x1FA86}, {0x1FA90, 0x1FAAC}, {0x1FAB0, 0x1FABA},
    {0x1FAC0, 0x1FAC5}, {0x1FAD0, 0x1FAD9}, {0x1FAE0, 0x1FAE7}, {0x1FAF0, 0x1FAF6}, {0x20000, 0x2FFFD},
    {0x30000, 0x3FFFD},
};
bool nonSpacing(uint32_t c) { // combining marks and variation selectors
  return (c == 0x3099) | (c == 0x309a) | ((c >= 0xfe00) & (c <= 0xfe0f));
}
unsigned width(uint32_t c) {
  if ((c == 0) | nonSpacing(c)) return 0;
  bool w = false;
  for (const auto& r : Wide) w |= (c >= r.a) & (c <= r.b);
  return 1u + w;
}
size_t total(const Bytes& s) {
  size_t r = 0;
  for (auto p = reinterpret_cast<const unsigned char*>(s.c_str()); *p;) {
    const Item i = item(p);
    r += width(i.code);
    p += i.len;
  }
  return r;
}
const uint32_t Kinds[]{'a', 0x732b, 0x3099, 0xfe0f, 0, 0xe9, 0x1f600};
// fixed representatives, at most one of them replaced by any code of a small range
Codes mixed(size_t n) {
  Codes t;
  const unsigned at = ksym_choose(static_cast<unsigned>(n) + 1, "arbitrary");
  for (size_t i = 0; i < n; ++i)
    if (i == at) {
      const auto o = sym<uint8_t>("code");
      t += static_cast<char32_t>((ksym_choose(2, "base") ? 0x3080u : 0xfdc0u) + o);
    } else t += static_cast<char32_t>(Kinds[ksym_choose(7, "kind")]);
  return t;
}
void padding() {
  const Codes t = mixed(ksym_choose(TIER ? 4 : 3, "chars"));
  Bytes s;
  size_t w = 0;
  for (const auto c : t)
    if (c) s += encode(static_cast<uint32_t>(c)), w += width(static_cast<uint32_t>(c));
  const size_t n = ksym_choose(8, "columns");
  std::ostringstream os;
  const bool left = ksym_choose(2, "left");
  os << (left ? std::left : std::right) << std::setfill('.') << std::setw(wideSetw(s, n)) << s << '|';
  const Bytes out = os.str(), fill = w < n ? Bytes(n - w, '.') : Bytes{};
  if (w <= n) {
    ksym_assert(same(out, (left ? s + fill : fill + s) + "|"), "padded to exactly the asked width");
    ksym_assert(displaySize(out) == n + 1, "width of the padded text");
  } else ksym_assert(same(out, s + "|"), "a text that is too wide is kept");
  obs("out", out);
}
}
extern "C" void ksym_main() {
  switch (ksym_choose(6, "case")) {
  case 0: {
    const auto c = sym<uint32_t>("code");
    ksym_assert(displaySize(CodeString(1, static_cast<char32_t>(c))) == width(c), "width of one code");
    break;
  }
  case 1: {
    const Codes t = mixed(ksym_choose(TIER ? 5 : 4, "codes"));
    size_t w = 0;
    for (const auto c : t) w += width(static_cast<uint32_t>(c));
    ksym_assert(displaySize(CodeString{t}) == w, "width of a text is the sum");
    break;
  }
  case 2: {
    const Bytes s = symChar(1 + ksym_choose(4, "size"), "char");
    const unsigned w = width(item(reinterpret_cast<const unsigned char*>(s.c_str())).code);
    ksym_assert(displaySize(s) == w && displaySize(s.c_str()) == w, "width of one character");
    break;
  }
  case 3: {
    const Bytes s = symString(ksym_choose(TIER ? 4 : 3, "length"), "text");
    ksym_assert(displaySize(s) == total(s), "width of any bytes");
    break;
  }
  case 4: {
    const Bytes s = symKana("char") + symKana("char");
    ksym_assert(displaySize(s) == total(s), "width of two characters");
    break;
  }
  default: padding();
  }
}
