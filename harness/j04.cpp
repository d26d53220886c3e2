// J04: lookup by frequency
#include "h.h"
#include <kt_kanji/KanjiData.h>
#include <sstream>
using namespace kanji_tools;

namespace {
const Radical Rad{1, "一", {}, {}, {}};
class K final : public Kanji {
public:
  K() : Kanji{name(), {}, Rad, Strokes{1}, {}, {}, {}}, _f{++_next} {}
  KanjiTypes type() const final { return KanjiTypes::Frequency; }
  Meaning meaning() const final { return emptyString(); }
  Reading reading() const final { return emptyString(); }
  Frequency frequency() const final { return _f; }
private:
  static Name name() {
    static const String N{"一"};
    return N;
  }
  inline static Frequency _next;
  const Frequency _f;
};
// all kanji in one array in order of rank, never deleted: which one was found
// is decided by its address
K* pool;
std::stringstream sink;
class Data final : public KanjiData {
public:
  Data() : KanjiData{{}, DebugMode::None, sink, sink} {}
  Kanji::Frequency frequency(const String&) const final { return 0; }
  JlptLevels level(const String&) const final { return JlptLevels::None; }
  KenteiKyus kyu(const String&) const final { return KenteiKyus::None; }
  void fill(unsigned n) { // in the order of the list, as loading does
    for (unsigned i = 1; i <= n; ++i) addToFrequencies(KanjiPtr{KanjiPtr{}, &pool[i - 1]});
  }
};
constexpr unsigned Sizes[]{0, 1, 249, 250, 251, 500, 2499, 2500, 2501, 2502, 2750, 2751, 2900
#if TIER
  , 1000, 2000, 3000, 3251, 10000
#endif
};
void lookup(const Data& d, unsigned n) {
  const auto f = sym<Kanji::Frequency>("frequency");
  ksym_mode(3); // one path per group
  const KanjiPtr k = d.findByFrequency(f);
  ksym_assert((k != nullptr) == (f >= 1 && f <= n), "exactly the ranks of the list are found");
  if (k) {
    ksym_assert(k.get() == &pool[f - 1], "the kanji found has the rank looked up");
    ksym_reach("found");
  }
}
void lists(const Data& d, unsigned n) {
  unsigned next = 1;
  for (size_t b = 0; b < 10; ++b) {
    const auto& l = d.frequencyList(b);
    const unsigned rest = n + 1 - next;
    ksym_assert(l.size() == (b == 9 ? rest : rest < 250 ? rest : 250), "groups are consecutive equal parts with the remainder in the last");
    for (auto& k : l) ksym_assert(k.get() == &pool[next++ - 1], "groups keep the ranking");
  }
  const auto b = sym<size_t>("group");
  ksym_assume(b >= 10);
  ksym_assert(d.frequencyList(b).empty(), "there are ten groups");
}
}
extern "C" void ksym_setup() { pool = new K[Sizes[sizeof Sizes / sizeof *Sizes - 1]]; }
extern "C" void ksym_main() {
  const unsigned n = Sizes[ksym_choose(sizeof Sizes / sizeof *Sizes, "size")];
  Data d;
  d.fill(n);
  ksym_assert(KanjiData::maxFrequency() == (n ? n + 1 : 0), "maximum");
  switch (ksym_choose(3, "case")) {
  case 0: lookup(d, n); break;
  case 1: lists(d, n); break;
  default: { // another set of data loaded later
    const unsigned m = ksym_choose(2, "second") ? 3 : 0;
    Data e;
    e.fill(m);
    lookup(e, m);
  }
  }
}
