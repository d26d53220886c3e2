// K03: Hiragana and Katakana into each other
#include "kanaref.h"
#include <kt_kana/Converter.h>
using namespace kanji_tools;

namespace {
const CharType Types[]{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
// an arbitrary character of the kana blocks, not a combining mark
Bytes any() {
  Bytes s = symKana("kana");
  if (ksym_concretize(s[1] == '\x82')) {
    ksym_assume(s[2] != '\x99');
    ksym_assume(s[2] != '\x9a');
  }
  return s;
}
uint32_t code(const Bytes& s, size_t i) {
  const auto b = [&s, i](size_t k) { return static_cast<uint32_t>(ksym_concretize(static_cast<unsigned char>(s[i + k]))); };
  const uint32_t x = b(0) & 15, y = b(1) & 63, z = b(2) & 63;
  return x << 12 | y << 6 | z;
}
}
extern "C" void ksym_main() {
  const unsigned source = ksym_choose(2, "source"), n = ksym_choose(TIER ? 4 : 3, "chars");
  const unsigned flags = TIER ? ksym_choose(16, "flags") : n < 2 ? ksym_choose(2, "flags") * 15 : 0;
  Bytes s;
  for (unsigned i = 0; i < n; ++i) s += i == 2 ? encode(static_cast<uint32_t>(0x3063 + 0x60 * source)) + any() : any();
  Converter c{Types[1 - source], static_cast<ConvertFlags>(flags)};
  const Bytes to = c.convert(Types[source], s);
  Pieces t;
  for (size_t i = 0; i < s.size(); i += 3) t.push_back({code(s, i), {}});
  const Bytes want = fromKana(t, source, 1 - source, flags);
  ksym_assert(same(to, want), "each kana becomes its partner, everything else is kept");
  obs("to", to);
  c.target(Types[source]);
  const Bytes back = c.convert(Types[1 - source], to);
  bool own = true; // nothing in the text belonged to the other script
  for (auto& p : t) {
    const uint32_t x = source == Kata ? p.code : p.code + 0x60;
    own &= (x >= 0x30a1 && x <= 0x30f6) || x == 0x30fd || x == 0x30fe || p.code == Prolong;
  }
  if (own) {
    ksym_reach("round trip");
    ksym_assert(same(back, s), "converting back gives the original text");
  }
}
