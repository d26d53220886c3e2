// K01: stepping through text
#include "walkref.h"
#include <kt_kana/Utf8Char.h>
using namespace kanji_tools;
using namespace walk_ref;

namespace {
unsigned count(const Bytes& s, bool onlyMb) { // start bytes that are not marks or selectors
  unsigned r = 0;
  for (size_t i = 0; i < s.size();) {
    const auto b = static_cast<unsigned char>(s[i]), c = i + 1 < s.size() ? static_cast<unsigned char>(s[i + 1]) : static_cast<unsigned char>(0),
      d = i + 2 < s.size() ? static_cast<unsigned char>(s[i + 2]) : static_cast<unsigned char>(0);
    if ((b == 0xef && c == 0xb8 && d >= 0x80 && d <= 0x8f) || (b == 0xe3 && c == 0x82 && (d == 0x99 || d == 0x9a))) i += 3;
    else r += onlyMb ? b >= 0xc0 : (b < 0x80 || b >= 0xc0), ++i;
  }
  return r;
}
void walk(const Bytes& s, bool varied) {
  Utf8Char u{s};
  Walk w{s};
  const Bytes* last = nullptr;
  Bytes got, ahead, want;
  bool onlyMb = ksym_choose(2, "only");
  for (unsigned n = 0;; ++n) {
    if (varied && n) onlyMb = ksym_choose(2, "only");
    ahead = got = "?";
    const auto e = u.errors(), v = u.variants(), c = u.combiningMarks();
    const bool p = u.peek(ahead, onlyMb);
    ksym_assert(u.errors() == e && u.variants() == v && u.combiningMarks() == c, "looking ahead changes nothing");
    const bool g = u.next(got, onlyMb), r = w.step(want, onlyMb);
    ksym_assert(g == r && p == g, "there is a next character exactly when one is left");
    ksym_assert(u.errors() == w.errors && u.variants() == w.variants && u.combiningMarks() == w.marks, "counts match what was visited");
    if (!r) break;
    ksym_assert(same(got, want), "the next character in order");
    ksym_assert(same(ahead, want), "looking ahead shows the next character");
    obs("char", got);
    ksym_reach("character");
    (void)last;
  }
  Bytes f{"?"};
  ksym_assert(!u.next(f, false) || varied || onlyMb, "nothing after the end");
  u.reset();
  ksym_assert(u.errors() == 0 && u.variants() == 0 && u.combiningMarks() == 0, "reset clears the counts");
  Walk a{s};
  const bool r = a.step(want, true);
  f.clear();
  ksym_assert(u.next(f) == r && (!r || same(f, want)), "reset starts again");
  ksym_assert(same(Utf8Char::getFirst(s), r ? want : Bytes{}), "first multi-byte character");
  const bool only = ksym_choose(2, "size");
  ksym_assert(u.size(only) == count(s, only) && Utf8Char::size(s, only) == count(s, only), "number of characters");
}
}
extern "C" void ksym_main() {
  switch (ksym_choose(4, "case")) {
  case 0: walk(symString(ksym_choose((TIER ? 4 : 3) + 1, "length"), "text"), true); break;
  case 1: { // a character followed by a possible mark or selector
    Bytes s = symChar((TIER ? 1 : 2) + ksym_choose(TIER ? 4 : 3, "size"), "char");
    Bytes m = symString(3, "mark");
    const auto c = static_cast<unsigned char>(m[0]), d = static_cast<unsigned char>(m[1]);
    if (!TIER) ksym_assume((c == 0xe3 && d == 0x82) || (c == 0xef && d == 0xb8));
    else ksym_assume(c == 0xe3 || c == 0xef);
    walk(s + m, false);
    break;
  }
  case 2: { // accents on every kana
    const bool semi = ksym_choose(2, "semi");
    walk(symKana("kana") + encode(semi ? 0x309a : 0x3099), false);
    break;
  }
  default: { // variation selectors as strings
    const Bytes s = symString(ksym_choose(9, "length"), "text", true);
    size_t n = s.size();
    Bytes tail = n >= 3 ? s.substr(n - 3) : Bytes{};
    const auto b = [&tail](size_t i) { return static_cast<unsigned char>(tail[i]); };
    const bool sel = n >= 3 && b(0) == 0xef && b(1) == 0xb8 && b(2) >= 0x80 && b(2) < 0x90;
    const bool want = sel && n >= 5 && n <= 7;
    ksym_assert(Utf8Char::isCharWithVariationSelector(s) == want, "character with a variation selector");
    ksym_assert(same(Utf8Char::noVariationSelector(s), want ? s.substr(0, n - 3) : s), "removing a variation selector");
  }
  }
}
