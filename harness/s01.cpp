// S01: ranking of counted characters
#include "quizref.h"
#include <kt_stats/Stats.h>
#include <set>
using namespace quizref;

namespace {
constexpr uint16_t Top = 2600; // highest frequency loaded
struct One {
  uint64_t count;
  Bytes name;
  bool found;
  uint16_t freq{};
  unsigned type{};
  KanjiPtr entry;
  Stats::Count make() const { return {count, name, entry}; }
  // not found after no frequency after every frequency
  unsigned rank() const { return !found ? Top + 2u : freq ? freq : Top + 1u; }
  unsigned kind() const { return found ? type : static_cast<unsigned>(KanjiTypes::None); }
};
One any(const Bytes& name) {
  One x{sym<uint64_t>("count"), name, ksym_choose(2, "found") == 0};
  if (!x.found) return x;
  Attr a{"一", "い", ""};
  a.freq = x.freq = sym<uint16_t>("frequency");
  ksym_assume(x.freq <= Top);
  const auto t = sym<unsigned char>("type");
  ksym_assume(t < static_cast<unsigned>(KanjiTypes::None));
  a.type = static_cast<KanjiTypes>(t);
  x.type = t;
  x.entry = keep(a);
  return x;
}
bool less(const Bytes& a, const Bytes& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (ksym_concretize(a[i] != b[i])) return ksym_concretize(static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]));
  return a.size() < b.size();
}
bool before(const One& a, const One& b) {
  if (ksym_concretize(a.count != b.count)) return ksym_concretize(a.count > b.count);
  if (ksym_concretize(a.rank() != b.rank())) return ksym_concretize(a.rank() < b.rank());
  if (ksym_concretize(a.kind() != b.kind())) return ksym_concretize(a.kind() < b.kind());
  return less(a.name, b.name);
}
}
extern "C" void ksym_setup() {
  Attr a{"一", "い", ""};
  a.freq = Top;
  const auto d = std::make_shared<Data>(KanjiData::Path{ksym_dir()});
  d->add(a);
}
extern "C" void ksym_main() {
#if MODE == 0
  // any two
  const Bytes x = symString(ksym_choose(4, "length"), "name", true);
  const Bytes y = symString(ksym_choose(4, "length"), "name", true);
  const One a = any(x);
  const One b = any(y);
  const Stats::Count p = a.make(), q = b.make();
  ksym_assert((p < q) == before(a, b) && (q < p) == before(b, a), "order by count, frequency, type and name");
  ksym_assert(!(p < p), "nothing comes before itself");
  ksym_assert(p.count() == a.count && same(p.name(), a.name) && p.entry() == a.entry, "a count reports what it was made of");
  if (p < q) ksym_reach("before");
  else ksym_reach("not before");
#else
  // a ranked set of different characters
  static const char* const Names[]{"亜", "ア", "a", "一"};
  constexpr unsigned N = TIER ? 4 : 3;
  std::vector<One> v;
  for (unsigned i = 0; i < N; ++i) v.push_back(any(Names[i]));
  const Stats::Count p = v[0].make(), q = v[1].make(), r = v[2].make();
  ksym_assert(!(p < q && q < r) || p < r, "the order is transitive");
  std::set<Stats::Count> s;
  for (auto& i : v) s.emplace(i.count, i.name, i.entry);
  ksym_assert(s.size() == N, "every counted character is kept");
  std::vector<unsigned> found; // positions in v
  for (auto& i : s)
    for (unsigned j = 0; j < N; ++j)
      if (i.name() == v[j].name) found.push_back(j);
  bool ordered = found.size() == N;
  for (size_t i = 1; i < found.size(); ++i) ordered = ordered && before(v[found[i - 1]], v[found[i]]);
  ksym_assert(ordered, "listed in the order of the ranking");
#endif
}
