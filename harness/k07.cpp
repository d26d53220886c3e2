// K07: kana and the relations between them
#include "kanaref.h"
#include <kt_kana/Converter.h>
#include <kt_kana/Kana.h>
using namespace kanji_tools;

namespace {
const CharType Types[]{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
int rowOf(const Kana* k) { // by spelling, which is unique
  if (!k) return -1;
  for (int i = 0; i < KN; ++i)
    if (k->romaji() == KT[i].r) return i;
  return -2;
}
void checkKana(const Kana& k, int i) {
  const auto& x = KT[i];
  ksym_assert(k.romaji() == x.r, "a kana is found by its text");
  for (unsigned t = 0; t < 2; ++t) ksym_assert(k.get(Types[t], static_cast<ConvertFlags>(15)) == kcode(x.a, t) + kcode(x.b, t), "a kana has the right text");
  ksym_assert(k.hiragana() == kcode(x.a, Hira) + kcode(x.b, Hira), "a kana has the right Hiragana");
  ksym_assert(k.katakana() == kcode(x.a, Kata) + kcode(x.b, Kata), "a kana has the right Katakana");
  ksym_assert(rowOf(k.dakuten()) == x.d && rowOf(k.hanDakuten()) == x.s && rowOf(k.plain()) == x.p, "voiced and plain forms are linked");
  if (x.d >= 0) ksym_assert(k.dakuten()->plain() == &k, "a voiced form leads back to its plain form");
  if (x.s >= 0) ksym_assert(k.hanDakuten()->plain() == &k, "a semi-voiced form leads back to its plain form");
  for (unsigned t = 0; t < 3; ++t) {
    const auto d = k.dakuten(Types[t]), h = k.hanDakuten(Types[t]);
    ksym_assert(d.has_value() == (x.d >= 0) && h.has_value() == (x.s >= 0), "the text of a voiced form exists if there is one");
    const auto want = [t](int q) { return t == Roma ? Bytes{KT[q].r} : kcode(KT[q].a, t) + kcode(KT[q].b, t); };
    if (d && x.d >= 0) ksym_assert(*d == want(x.d), "the text of the voiced form");
    if (h && x.s >= 0) ksym_assert(*h == want(x.s), "the text of the semi-voiced form");
  }
  for (unsigned f = 0; f < 16; ++f) {
    const Bytes r = krom(i, f);
    ksym_assert(k.getRomaji(static_cast<ConvertFlags>(f)) == r, "Romaji follows the style");
    ksym_assert(k.getSokuonRomaji(static_cast<ConvertFlags>(f)) == (r[0] == 'c' ? 't' : r[0]) + r, "a doubled consonant follows the style");
  }
  const bool plainOf = x.p >= 0;
  ksym_assert(k.isDakuten() == (plainOf ? KT[x.p].d == i : x.r[0] == 'v'), "isDakuten");
  ksym_assert(k.isHanDakuten() == (plainOf && KT[x.p].s == i), "isHanDakuten");
  ksym_assert(k.isDigraph() == (x.b != 0) && k.isMonograph() == (x.b == 0), "one or two kana");
  const uint32_t h = x.a;
  ksym_assert(k.isSmall() == (!x.b && (smallKana(h) || h == Tsu || h == 0x3095 || h == 0x3096)), "isSmall");
}
}
extern "C" void ksym_main() {
#if MODE == 0 // look up any text
  const unsigned type = ksym_choose(3, "script"), n = ksym_choose(3, "size");
  Bytes s;
  int row = -1;
  if (type == Roma) {
    s = symString(n + 1, "letters");
    for (int i = 0; i < KN && row < 0; ++i) {
      bool e = ksym_concretize(same(s, KT[i].r));
      for (auto* v : KT[i].var) e = e || (*v && ksym_concretize(same(s, v)));
      if (e) row = i;
    }
  } else {
    if (n == 2) s = symString(3, "text"); // anything
    else
      for (unsigned i = 0; i <= n; ++i) s += symKana("kana");
    for (int i = 0; i < KN && row < 0; ++i)
      if (ksym_concretize(same(s, kcode(KT[i].a, type) + kcode(KT[i].b, type)))) row = i;
  }
  const auto& map = Kana::getMap(Types[type]);
  const auto it = map.find(s);
  ksym_assert((it != map.end()) == (row >= 0), "exactly the kana and their spellings are found");
  if (it != map.end() && row >= 0) checkKana(*it->second, row);
  if (type != Roma) {
    const auto d = Kana::findDakuten(s), h = Kana::findHanDakuten(s);
    const int rd = row < 0 ? -1 : KT[row].d, rs = row < 0 ? -1 : KT[row].s;
    int other = -1; // the same text in the other script is not kana of this one
    if (row < 0)
      for (int i = 0; i < KN && other < 0; ++i)
        if (ksym_concretize(same(s, kcode(KT[i].a, 1 - type) + kcode(KT[i].b, 1 - type)))) other = i;
    const unsigned t = other >= 0 ? 1 - type : type;
    const int wd = other >= 0 ? KT[other].d : rd, ws = other >= 0 ? KT[other].s : rs;
    ksym_assert(d.has_value() == (wd >= 0) && h.has_value() == (ws >= 0), "a voiced form is found if there is one");
    if (d && wd >= 0) ksym_assert(*d == kcode(KT[wd].a, t) + kcode(KT[wd].b, t), "the voiced form is found");
    if (h && ws >= 0) ksym_assert(*h == kcode(KT[ws].a, t) + kcode(KT[ws].b, t), "the semi-voiced form is found");
    const auto* m = Kana::findIterationMark(Types[type], s);
    const Bytes plain = encode(type == Kata ? 0x30fd : 0x309d), acc = encode(type == Kata ? 0x30fe : 0x309e);
    const Kana::IterationMark* want = ksym_concretize(same(s, plain)) ? &Kana::RepeatPlain : ksym_concretize(same(s, acc)) ? &Kana::RepeatAccented : nullptr;
    ksym_assert(m == want, "repeat marks of a script are found");
  } else
    ksym_assert(!Kana::findIterationMark(Types[type], s), "there are no repeat marks in Romaji");
#else // repeat marks after any kana
  const unsigned source = ksym_choose(2, "source"), form = ksym_choose(3, "form");
  Pieces t;
  const auto kana = [source](const char* name) {
    Bytes s = symKana(name);
    const Piece p = classify(s, source);
    ksym_assume(p.code != 0);
    return p;
  };
  t.push_back(kana("first"));
  if (form == 1) { // a second part
    constexpr uint32_t Small[]{0x3083, 0x3085, 0x3087, 0x3041, 0x3043, 0x3047, 0x308e, 0x3093, 0x3042};
    const uint32_t h = Small[ksym_choose(9, "second")];
    t.push_back({source == Kata ? h + 0x60 : h, {}});
  }
  if (form == 2) t.insert(t.begin(), {source == Kata ? Tsu + 0x60 : Tsu, {}});
  const uint32_t mark = source == Kata ? 0x30fd : 0x309d;
  t.push_back({mark + ksym_choose(2, "accented"), {}});
  const unsigned more = ksym_choose(TIER || !form ? 3 : 1, "more");
  if (more == 1) t.push_back({mark + 1, {}});
  if (more == 2) t.push_back({source == Kata ? 0x30abu : 0x304bu, {}});
  const unsigned style = ksym_choose(TIER ? 5 : 3, "style");
  const unsigned target = style == (TIER ? 4 : 2) ? 1 - source : Roma, flags = target == Roma ? style * (TIER ? 1 : 2) : 0;
  const Converter c{Types[target], static_cast<ConvertFlags>(flags)};
  const Bytes r = c.convert(Types[source], text(t));
  ksym_assert(same(r, fromKana(t, source, target, flags)), "a repeat mark stands for the kana before it");
  obs("result", r);
#endif
}
