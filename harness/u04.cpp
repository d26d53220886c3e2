// U04: character classes. The published blocks are written out again here.
#include "h.h"
#include <kt_utils/UnicodeBlock.h>
using namespace kanji_tools;

namespace {
struct B { uint32_t lo, hi; };
const B Hira[]{{0x3040, 0x309f}}, Kata[]{{0x30a0, 0x30ff}, {0x31f0, 0x31ff}},
    Common[]{{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}},
    Rare[]{{0x2e80, 0x2eff}, {0x2a700, 0x2ebef}, {0x2f800, 0x2fa1f}, {0x30000, 0x3134f}},
    Punct[]{{0x2000, 0x206f}, {0x3000, 0x303f}, {0xfff0, 0xffff}},
    Symb[]{{0x2100, 0x214f}, {0x2190, 0x21ff}, {0x2200, 0x22ff}, {0x2500, 0x257f}, {0x25a0, 0x25ff}, {0x2600, 0x26ff},
        {0x2ff0, 0x2fff}, {0x3190, 0x319f}, {0x31c0, 0x31ef}},
    Lett[]{{0x80, 0xff}, {0x100, 0x17f}, {0x180, 0x24f}, {0x2150, 0x218f}, {0x2460, 0x24ff}, {0x2c60, 0x2c7f}, {0xff00, 0xffef}};
template <size_t N> bool in(uint32_t c, const B (&t)[N]) {
  bool r = false;
  for (auto& b : t) r |= (c >= b.lo) & (c <= b.hi);
  return r;
}
enum Cls { cHira, cKata, cKana, cCommon, cRare, cKanji, cPunct, cSymb, cLett, cAny, nCls };
bool want(Cls k, uint32_t c) {
  switch (k) {
  case cHira: return in(c, Hira);
  case cKata: return in(c, Kata);
  case cKana: return in(c, Hira) | in(c, Kata);
  case cCommon: return in(c, Common);
  case cRare: return in(c, Rare);
  case cKanji: return in(c, Common) | in(c, Rare);
  case cPunct: return in(c, Punct);
  case cSymb: return in(c, Symb);
  case cLett: return in(c, Lett);
  default:
    return in(c, Hira) | in(c, Kata) | in(c, Common) | in(c, Rare) | in(c, Punct) | in(c, Symb) | in(c, Lett);
  }
}
bool nonSpacing(uint32_t c) { return ((c >= 0xfe00) & (c <= 0xfe0f)) | (c == 0x3099) | (c == 0x309a); }
bool is(Cls k, const String& s, bool one, bool space) {
  switch (k) {
  case cHira: return isHiragana(s, one);
  case cKata: return isKatakana(s, one);
  case cKana: return isKana(s, one);
  case cCommon: return isCommonKanji(s, one);
  case cRare: return isRareKanji(s, one);
  case cKanji: return isKanji(s, one);
  case cPunct: return isMBPunctuation(s, space, one);
  case cSymb: return isMBSymbol(s, one);
  case cLett: return isMBLetter(s, one);
  default: return isRecognizedUtf8(s, one);
  }
}
bool isDefault(Cls k, const String& s) {
  switch (k) {
  case cHira: return isHiragana(s);
  case cKata: return isKatakana(s);
  case cKana: return isKana(s);
  case cCommon: return isCommonKanji(s);
  case cRare: return isRareKanji(s);
  case cKanji: return isKanji(s);
  case cPunct: return isMBPunctuation(s);
  case cSymb: return isMBSymbol(s);
  case cLett: return isMBLetter(s);
  default: return isRecognizedUtf8(s);
  }
}
bool isAll(Cls k, const String& s) {
  switch (k) {
  case cHira: return isAllHiragana(s);
  case cKata: return isAllKatakana(s);
  case cKana: return isAllKana(s);
  case cCommon: return isAllCommonKanji(s);
  case cRare: return isAllRareKanji(s);
  case cKanji: return isAllKanji(s);
  case cPunct: return isAllMBPunctuation(s);
  case cSymb: return isAllMBSymbol(s);
  case cLett: return isAllMBLetter(s);
  default: return isAllRecognizedUtf8(s);
  }
}
bool range(Cls k, Code c) {
  switch (k) {
  case cHira: return inRange(c, HiraganaBlocks);
  case cKata: return inRange(c, KatakanaBlocks);
  case cKana: return inRange(c, HiraganaBlocks, KatakanaBlocks);
  case cCommon: return inRange(c, CommonKanjiBlocks);
  case cRare: return inRange(c, RareKanjiBlocks);
  case cKanji: return inRange(c, CommonKanjiBlocks, RareKanjiBlocks);
  case cPunct: return inRange(c, PunctuationBlocks);
  case cSymb: return inRange(c, SymbolBlocks);
  case cLett: return inRange(c, LetterBlocks);
  default: return inRange(c, HiraganaBlocks, KatakanaBlocks, CommonKanjiBlocks, RareKanjiBlocks, PunctuationBlocks, SymbolBlocks, LetterBlocks);
  }
}
void codes() {
  const auto c = sym<uint32_t>("code");
  const auto k = static_cast<Cls>(ksym_choose(nCls, "class"));
  ksym_assert(range(k, static_cast<Code>(c)) == want(k, c), "a code point is in a class exactly when in a published block");
  if (k == cAny) {
    int n = 0;
    for (auto x : {cHira, cKata, cCommon, cRare, cPunct, cSymb, cLett}) n += range(x, static_cast<Code>(c));
    ksym_assert(n <= 1, "classes are mutually exclusive");
    ksym_assert(isNonSpacing(static_cast<Code>(c)) == nonSpacing(c), "non-spacing marks are exact");
  }
}
// the class test of a decoded text
bool wantText(Cls k, const String& s, const Codes& t, bool one, bool space, bool& skip) {
  skip = false;
  if (s.size() < 2) return false; // these are tests for multi-byte characters
  if (k == cPunct && t[0] == 0x3000) {
    if (t.size() > 1 && one) { skip = true; return false; } // undocumented
    return space;
  }
  if (one && !(t.size() == 1 || (t.size() == 2 && nonSpacing(t[1])))) return false;
  return want(k, t[0]);
}
void checkText(Cls k, const String& s, const Codes& t) {
  const bool one = ksym_choose(2, "one"), space = k == cPunct && ksym_choose(2, "space");
  bool skip;
  const bool w = wantText(k, s, t, one, space, skip);
  const bool g = is(k, s, one, space);
  ksym_observe("is", g);
  if (!skip) ksym_assert(g == w, "one character of the class, with at most one mark");
  if (one && !space) ksym_assert(isDefault(k, s) == g, "testing a single character is the default");
}
void checkAll(Cls k, const String& s, const Codes& t) {
  bool mark = false, ok = true;
  for (auto c : t) {
    if (mark && nonSpacing(c)) mark = false;
    else if (want(k, c)) mark = true;
    else { ok = false; break; }
  }
  const bool g = isAll(k, s);
  ksym_observe("all", g);
  ksym_assert(g == ok, "the 'all' form tests each character");
}
void text(bool all) { // encoded arbitrary characters
  const auto k = static_cast<Cls>(ksym_choose(nCls, "class"));
  const size_t n = ksym_choose(all && TIER ? 4 : 3, "chars");
  Codes t;
  String s;
  for (size_t i = 0; i < n; ++i) {
    const auto c = sym<uint32_t>("code");
    ksym_assume(scalar(c) & (c != 0));
    t += static_cast<char32_t>(c);
    s += encode(c);
  }
  if (all) checkAll(k, s, t);
  else checkText(k, s, t);
}
void bytes(bool all) { // arbitrary bytes, decoded as U01 says
  constexpr size_t N = TIER ? 4 : 3;
  constexpr Cls Some[]{cKana, cPunct, cAny};
  const auto k = Some[ksym_choose(3, "class")];
  const Bytes s = symString(ksym_choose(N + 1, "length"), "text");
  Codes t;
  for (size_t i = 0; i < s.size();) {
    const Item x = item(reinterpret_cast<const unsigned char*>(s.data()) + i);
    t += static_cast<char32_t>(x.code);
    i += x.len;
  }
  if (all) checkAll(k, s, t);
  else checkText(k, s, t);
}
}
extern "C" void ksym_main() {
  switch (ksym_choose(5, "case")) {
  case 0: codes(); break;
  case 1: text(false); break;
  case 2: text(true); break;
  case 3: bytes(false); break;
  default: bytes(true);
  }
}
