// K04: kana to Romaji and back
#include "kanaref.h"
#include <kt_kana/Converter.h>
using namespace kanji_tools;

namespace {
const CharType Types[]{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
// an arbitrary kana of one script
Piece any(unsigned source, const char* name) {
  Bytes s = symKana(name);
  const auto b = [&s](size_t k) { return static_cast<uint32_t>(ksym_concretize(static_cast<unsigned char>(s[k]))); };
  const uint32_t x = b(0) & 15, y = b(1) & 63, z = b(2) & 63, c = x << 12 | y << 6 | z;
  const uint32_t h = source == Kata ? c - 0x60 : c;
  ksym_assume(h >= 0x3041 && h <= 0x3096);
  return {c, {}};
}
const uint32_t Special[]{Tsu, Nn, 0x3083, 0x3087, 0x3043, 0x3047, 0x308e, 0x308f, 0x3092, Prolong};
Piece special(unsigned source, const char* name, unsigned n) {
  const uint32_t c = Special[n == 1 ? 0 : ksym_choose(n, name)];
  return {source == Kata && c != Prolong ? c + 0x60 : c, {}};
}
}
extern "C" void ksym_main() {
  const unsigned source = ksym_choose(2, "source");
  const unsigned form = ksym_choose(TIER ? 5 : 4, "form");
  Pieces t;
  unsigned flags = 0;
  switch (form) {
  case 0: // pairs
    t.push_back(any(source, "first"));
    t.push_back(any(source, "second"));
    break;
  case 1: // under each style
    flags = 1 + ksym_choose(2, "style");
    t.push_back(any(source, "kana"));
    if (ksym_choose(2, "more")) {
      t.push_back(special(source, "after", 10));
      if (ksym_choose(2, "end")) t.push_back({source == Kata ? 0x30a2u : 0x3042u, {}});
    }
    break;
  case 2: // small tsu and n before groups
    t.push_back(special(source, "before", 2));
    t.push_back(any(source, "kana"));
    t.push_back(special(source, "after", 10));
    if (ksym_choose(2, "long")) t.push_back({Prolong, {}});
    break;
  case 3: // between
    t.push_back(special(source, "before", TIER ? 10 : 3));
    t.push_back(special(source, "middle", 10));
    t.push_back(any(source, "last"));
    break;
  default:
    t.push_back(any(source, "first"));
    t.push_back(special(source, "middle", 10));
    t.push_back(any(source, "last"));
    flags = ksym_choose(3, "style");
  }
  const Bytes s = text(t);
  Converter c{CharType::Romaji, static_cast<ConvertFlags>(flags)};
  const Bytes r = c.convert(Types[source], s);
  ksym_assert(same(r, fromKana(t, source, Roma, flags)), "the Romaji is the one defined for the kana");
  obs("romaji", r);
  c.target(Types[source]);
  const Bytes back = c.convert(CharType::Romaji, r);
  obs("back", back);
  if (flags & 3) {
    // a small kana of its own could be read as part of a digraph with the kana
    // that is written the same way ("i" + "le" is read as one)
    const auto h = [&t, source](size_t i) { return source == Kata ? t[i].code - 0x60 : t[i].code; };
    for (size_t i = 1; i < t.size(); ++i)
      if (smallKana(h(i)) && kfind(h(i - 1), h(i)) < 0) return;
    c.target(CharType::Romaji);
    const Bytes again = c.convert(Types[source], back);
    ksym_assert(same(again, r), "a Romaji style is read back as the same sound");
  } else
    ksym_assert(same(back, s), "Romaji converts back to the original kana");
}
