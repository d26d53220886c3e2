// K05: text that isn't converted
#include "kanaref.h"
#include <kt_kana/Converter.h>
using namespace kanji_tools;

namespace {
const CharType Types[]{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
// any variation selector
Bytes variant() {
  Bytes r = "\xef\xb8";
  const auto c = sym<unsigned char>("selector");
  ksym_assume(c >= 0x80 && c <= 0x8f);
  return r += static_cast<char>(c);
}
Piece kana(unsigned source, uint32_t h) { return {source == Kata && h ? h + 0x60 : h, {}}; }
}
extern "C" void ksym_main() {
#if MODE == 0 // a script into itself, and no text
  const unsigned t = ksym_choose(3, "script"), flags = ksym_choose(16, "flags");
  const Converter c{Types[t], static_cast<ConvertFlags>(flags)};
  const Bytes s = symString(ksym_choose(TIER ? 6 : 5, "length"), "text", true);
  ksym_assert(same(c.convert(Types[t], s), s), "a script into itself is the identity");
  for (auto i : Types) ksym_assert(c.convert(i, {}).empty(), "no text gives no text");
  ksym_assert(c.convert({}).empty(), "no text gives no text from all scripts");
#elif MODE == 1 // any character between kana
  const unsigned source = ksym_choose(2, "source");
  unsigned target = ksym_choose(2, "target") ? Roma : 1 - source;
  constexpr uint32_t Before[]{0, 0x3042, 0x304b, Tsu, Nn, 0x3083}, After[]{0, 0x3042, 0x3083, 0x304b};
  Pieces t;
  const uint32_t b = Before[ksym_choose(TIER ? 6 : 5, "before")], a = After[ksym_choose(TIER ? 4 : 3, "after")];
  if (b) t.push_back(kana(source, b));
  const Bytes x = symChar(1 + ksym_choose(4, "bytes"), "char");
  assumePlain(x);
  Piece p = classify(x, source);
  if (x.size() > 1 && !p.code && ksym_choose(2, "selected")) p.other += variant();
  t.push_back(p);
  if (a) t.push_back(kana(source, a));
  const unsigned flags = TIER ? ksym_choose(16, "flags") : 0;
  Converter c{Types[target], static_cast<ConvertFlags>(flags)};
  const Bytes r = c.convert(Types[source], text(t));
  ksym_assert(same(r, fromKana(t, source, target, flags)), "other text is kept in its place");
  obs("result", r);
#elif MODE == 2 // any letters
  const unsigned target = ksym_choose(2, "target");
  const unsigned n = ksym_choose(LEN + 3, "length");
  const Bytes s = symString(n, "text");
  for (char i : s) {
    if (n <= LEN) ksym_assume(static_cast<unsigned char>(i) < 0x80);
    else {
      bool in = false;
      for (const char* p = n == LEN + 1 ? "aioknytschTNx' 1" : "akntcyhN"; *p; ++p) in |= i == *p;
      ksym_assume(in);
    }
  }
  const unsigned flags = n <= LEN ? ksym_choose(2, "flags") * NoSpaces : 0;
  Converter c{Types[target], static_cast<ConvertFlags>(flags)};
  const Bytes r = c.convert(CharType::Romaji, s);
  obs("result", r);
  ksym_assert(same(r, toKana(s, target, flags)), "letters are converted or kept in their place");
#else // any character between letters
  const unsigned target = ksym_choose(2, "target");
  const char *Before[]{"", "k", "n", "ky", "a", "kk", "tch", "N", "shi", "sa k"}, *After[]{"", "a", "ya", "n", "i ", "ka"};
  Bytes s = Before[ksym_choose(10, "before")];
  const unsigned after = ksym_choose(6, "after"), flags = ksym_choose(2, "flags") * (NoProlong | NoSpaces);
  const Bytes x = symChar(1 + ksym_choose(4, "bytes"), "char");
  assumePlain(x);
  s += x;
  if (x.size() > 1 && ksym_choose(2, "selected")) s += variant();
  if (TIER) {
    const Bytes y = symChar(2, "second");
    s += y;
  }
  s += After[after];
  Converter c{Types[target], static_cast<ConvertFlags>(flags)};
  const Bytes r = c.convert(CharType::Romaji, s);
  obs("result", r);
  ksym_assert(same(r, toKana(s, target, flags)), "other text is kept in its place");
#endif
}
