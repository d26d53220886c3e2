// J03: orderings of kanji
#include "h.h"
#include <kt_kanji/Kanji.h>
#include <algorithm>
using namespace kanji_tools;

namespace {
struct Attr {
  KanjiTypes type{KanjiTypes::Ucd};
  KanjiGrades grade{KanjiGrades::None};
  JlptLevels level{JlptLevels::None};
  KenteiKyus kyu{KenteiKyus::None};
  uint16_t freq{};
  uint8_t strokes{1}, variant{};
  Bytes name{"一"}, compat;
};
const Radical Rad{1, "一", {}, {}, {}};
class K final : public Kanji {
public:
  explicit K(const Attr& a)
      : Kanji{a.name, a.compat.empty() ? OptString{} : OptString{a.compat}, Rad,
            a.variant ? Strokes{a.strokes, a.variant} : Strokes{a.strokes}, {}, {}, {}}, _a{a} {}
  KanjiTypes type() const final { return _a.type; }
  Meaning meaning() const final { return emptyString(); }
  Reading reading() const final { return emptyString(); }
  Frequency frequency() const final { return _a.freq; }
  KanjiGrades grade() const final { return _a.grade; }
  KenteiKyus kyu() const final { return _a.kyu; }
  JlptLevels level() const final { return _a.level; }
private:
  const Attr _a;
};
template <typename E> E symEnum(const char* name) { // any value up to None
  const auto x = sym<unsigned char>(name);
  ksym_assume(x <= static_cast<unsigned>(E::None));
  return static_cast<E>(x);
}
Attr any(const char* name) {
  Attr a;
  a.type = symEnum<KanjiTypes>(name);
  a.level = symEnum<JlptLevels>("level");
  a.kyu = symEnum<KenteiKyus>("kyu");
  a.freq = sym<uint16_t>("frequency");
  a.strokes = sym<uint8_t>("strokes");
  ksym_assume(a.strokes > 0 && a.strokes <= Strokes::Max);
  return a;
}
// position of the suffix in the legend of qualified names
unsigned rank(const Attr& a) {
  using enum KanjiTypes;
  if (a.type == Jouyou) return 0;
  if (a.level != JlptLevels::None) return 1;
  if (a.freq) return 2;
  if (a.type == Jinmei) return 3;
  if (a.type == LinkedJinmei) return 4;
  if (a.type == LinkedOld) return 5;
  if (a.type == Extra) return 6;
  if (a.type == Ucd) return 9;
  return a.kyu == KenteiKyus::K1 ? 8 : 7;
}
Codes codes(const Bytes& s) {
  Codes r;
  for (size_t i = 0; i < s.size();) {
    const Item x = item(reinterpret_cast<const unsigned char*>(s.c_str()) + i);
    r += static_cast<char32_t>(x.code);
    i += x.len;
  }
  return r;
}
int codeOrder(const Attr& a, const Attr& b) {
  const Codes x = codes(a.compat.empty() ? a.name : a.compat), y = codes(b.compat.empty() ? b.name : b.compat);
  for (size_t i = 0; i < x.size() && i < y.size(); ++i)
    if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return x.size() < y.size() ? -1 : x.size() > y.size();
}
// the strokes part: strokes, variant, frequency with none last; then the code
void check(const Attr& a, const Attr& b) {
  const K x{a}, y{b};
  const auto key = [](const Attr& q) {
    return static_cast<uint64_t>(q.strokes) << 32 | static_cast<uint64_t>(q.variant) << 24 | (q.freq ? q.freq : 65535U);
  };
  const auto p = key(a), q = key(b);
  const int c = codeOrder(a, b);
  const bool less = p < q || (p == q && c < 0);
  ksym_assert(x.orderByStrokes(y) == less, "kanji order by strokes, frequency with none last, then code");
  const unsigned ra = rank(a), rb = rank(b);
  ksym_assert(x.orderByQualifiedName(y) == (ra < rb || (ra == rb && less)), "kanji order by the rank of their qualified name, then strokes");
  static const char Suffix[]{".'\"^~%+@#*"};
  ksym_assert(same(x.qualifiedName(), a.name + Suffix[ra]), "the qualified name shows the rank");
  ksym_assert((x == y) == same(a.name, b.name), "kanji are equal when their names are");
  obs("less", less);
  ksym_reach("compared");
}
void attributes() { // any attributes with names in three orders
  Attr a = any("type"), b = any("type of other");
  const unsigned v = ksym_choose(4, "variants");
  if (v & 1) {
    a.variant = 5;
    ksym_assume(a.strokes > 1 && a.strokes != 5);
  }
  if (v & 2) {
    b.variant = sym<uint8_t>("variant");
    ksym_assume(b.variant > 2 && b.variant <= Strokes::MaxVariant);
    ksym_assume(b.strokes > 1 && b.strokes != b.variant);
  }
  const unsigned n = ksym_choose(3, "names");
  b.name = n == 0 ? "一" : n == 1 ? "丁" : "㐀";
  check(a, b);
}
// base, compatibility names, variation selectors, one of them arbitrary
Bytes symName(const char* name) {
  const unsigned k = ksym_choose(3, name);
  Bytes s = symChar(k == 1 ? 4 : 3, name);
  // kanji only: no byte order marks, selectors or combining marks
  if (k == 1) ksym_assume(static_cast<unsigned char>(s[0]) == 0xf0);
  else ksym_assume(static_cast<unsigned char>(s[0]) >= 0xe4 && static_cast<unsigned char>(s[0]) <= 0xe9);
  return k == 2 ? s + "\xef\xb8\x80" : s;
}
void names() {
  Attr a, b;
  a.name = symName("name");
  b.name = symName("other name");
  const unsigned c = ksym_choose(3, "compatibility");
  if (c == 1) a.compat = "\xef\xa8\xb0";
  if (c == 2) a.compat = "\xf0\xaf\xa0\x80", b.compat = "\xef\xa8\xb0";
  check(a, b);
}
}
extern "C" void ksym_main() {
  if (ksym_choose(2, "case")) names();
  else attributes();
}
