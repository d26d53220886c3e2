// the definition of furigana
#pragma once
#include "walkref.h"

namespace walk_ref {
constexpr uint32_t Open = 0xff08, Close = 0xff09, Line = '\n';
struct Ch { Bytes text; uint32_t code; };
using Text = std::vector<Ch>;
inline Ch ch(const char* s) { return {s, item(reinterpret_cast<const unsigned char*>(s)).code}; }
inline bool in(uint32_t c, uint32_t a, uint32_t b) { return ksym_concretize(c >= a && c <= b); }
// kanji, radicals, selectors and wide letters
inline bool base(uint32_t c) {
  static constexpr uint32_t Blocks[][2]{{0x2e80, 0x2eff}, {0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0xfe00, 0xfe0f},
    {0xff00, 0xffef}, {0x20000, 0x2a6df}, {0x2a700, 0x2ebef}, {0x2f800, 0x2fa1f}, {0x30000, 0x3134f}};
  for (auto& b : Blocks)
    if (in(c, b[0], b[1])) return true;
  return false;
}
inline bool kana(uint32_t c) { return in(c, 0x3040, 0x30ff) || in(c, 0x31f0, 0x31ff); }
inline bool is(uint32_t c, uint32_t x) { return ksym_concretize(c == x); }

struct Furigana { size_t first, last; bool sure; };
// bracketed kana after a kanji, with at most one line break within
inline std::vector<Furigana> furigana(const Text& t) {
  std::vector<Furigana> r;
  for (size_t i = 0; i < t.size(); ++i) {
    if (!base(t[i].code)) continue;
    bool sure = !is(t[i].code, Open) && !is(t[i].code, Close);
    size_t j = i + 1;
    unsigned breaks = 0;
    if (j < t.size() && is(t[j].code, Line)) {
      ++breaks, ++j;
      // not if another bracket is still open on the line before
      for (size_t k = i + 1; k-- && !is(t[k].code, Line) && !is(t[k].code, Close);)
        if (is(t[k].code, Open)) {
          sure = false;
          break;
        }
    }
    if (j >= t.size() || !is(t[j].code, Open)) continue;
    const size_t first = j++;
    unsigned n = 0;
    for (; j < t.size(); ++j)
      if (is(t[j].code, Line)) ++breaks;
      else if (kana(t[j].code)) ++n;
      else break;
    if (j < t.size() && n && breaks < 2 && is(t[j].code, Close)) r.push_back({first, j, sure});
  }
  return r;
}
inline Bytes bytes(const Text& t) {
  Bytes s;
  for (auto& i : t) s += i.text;
  return s;
}
inline Ch any(unsigned n) { // an arbitrary character that is not a mark or selector
  const Bytes s = symChar(n, "char");
  const auto i = item(reinterpret_cast<const unsigned char*>(s.c_str()));
  ksym_assume(!ksym_concretize(mark(i.code)));
  ksym_assume(!ksym_concretize(selector(i.code)));
  return {s, i.code};
}
}
