// K06: delimiters
#include "kanaref.h"
#include <kt_kana/Converter.h>
using namespace kanji_tools;

namespace {
const CharType Types[]{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
}
extern "C" void ksym_main() {
  const unsigned script = ksym_choose(2, "script"), form = ksym_choose(3, "form");
  const unsigned flags = ksym_choose(2, "no spaces") * NoSpaces;
  if (form == 0) { // Romaji to kana and back: one or two arbitrary characters other than letters
    const char *Around[]{"", "a", "n", "ka"};
    const unsigned n = 1 + ksym_choose(2, "count");
    Bytes s = Around[n == 2 && !TIER ? 2 : ksym_choose(4, "before")];
    const Bytes x = symString(n, "chars");
    for (char i : x) {
      ksym_assume(static_cast<unsigned char>(i) < 0x80);
      ksym_assume((i | 0x20) < 'a' || (i | 0x20) > 'z');
    }
    s += x;
    s += Around[n == 2 && !TIER ? 1 : ksym_choose(4, "after")];
    Converter c{Types[script], static_cast<ConvertFlags>(flags)};
    const Bytes r = c.convert(CharType::Romaji, s);
    ksym_assert(same(r, toKana(s, script, flags)), "narrow delimiters become wide ones");
    obs("kana", r);
    Bytes want; // all but the marks that only separate
    for (char i : s)
      if (i != '\'' && i != '-' && !(i == ' ' && flags)) want += i;
    c.target(CharType::Romaji);
    const Bytes back = c.convert(Types[script], r);
    obs("back", back);
    if (want.find("na") == Bytes::npos && want.find("nka") == Bytes::npos)
      ksym_assert(same(back, want), "wide delimiters become the narrow ones again");
    // every kind of kana source leads to the same result
    c.target(Types[script]);
    ksym_assert(same(c.convert(s), r), "a conversion from all scripts treats delimiters the same");
  } else if (form == 1) { // any wide character
    Pieces t;
    constexpr uint32_t Around[]{0, 0x3042, Nn};
    const unsigned b = ksym_choose(3, "before"), a = ksym_choose(3, "after");
    const auto kana = [script](uint32_t h) { return Piece{script == Kata ? h + 0x60 : h, {}}; };
    if (b) t.push_back(kana(Around[b]));
    const Bytes x = symChar(3, "char");
    assumePlain(x);
    t.push_back(classify(x, script));
    if (a) t.push_back(kana(Around[a]));
    Converter c{CharType::Romaji, static_cast<ConvertFlags>(flags)};
    const Bytes r = c.convert(Types[script], text(t));
    ksym_assert(same(r, fromKana(t, script, Roma, flags)), "wide delimiters become narrow ones");
    c.target(Types[1 - script]); // into the other kana they are kept
    const Bytes o = c.convert(Types[script], text(t));
    ksym_assert(same(o, fromKana(t, script, 1 - script, flags)), "delimiters are kept between kana");
    obs("romaji", r);
  } else { // spaces in several places
    const char* Words[]{"n", "", "shi", "a"};
    Bytes s;
    for (int i = 0; i < 3; ++i) {
      s += Words[ksym_choose(TIER ? 4 : 2, "word")];
      const Bytes x = symString(1, "separator");
      ksym_assume(x[0] == ' ' || x[0] == '.' || x[0] == '-' || x[0] == '_' || x[0] == '\t');
      s += x;
    }
    const Converter c{Types[script], static_cast<ConvertFlags>(flags)};
    const Bytes r = c.convert(CharType::Romaji, s);
    ksym_assert(same(r, toKana(s, script, flags)), "spaces are removed only if asked");
  }
}
