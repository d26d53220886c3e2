// U07: enum lists and maps: indexes, iterators, names
#include "h.h"
#include <kt_utils/EnumList.h>
#include <kt_utils/EnumMap.h>

namespace kanji_tools {
enum class Colors : Enum::Size { Red, Green, Blue };
template <> inline constexpr auto is_enumlist<Colors>{true};
inline const auto AllColors{BaseEnumList<Colors>::create("Red", "Green", "Blue")};
enum class Days : Enum::Size { Mon, Tue, Wed, Thu, None };
template <> inline constexpr auto is_enumlist_with_none<Days>{true};
inline const auto AllDays{BaseEnumList<Days>::create("Mon", "Tue", "Wed", "Thu")};
enum class Big : Enum::Size { Max = 254, None = 255 };
}
using namespace kanji_tools;

namespace {
// list[i] for any integer type: the element of that index or a range error
template <typename L, typename I> void index(const L& list, unsigned n) {
  const auto i = sym<I>("index");
  const bool ok = i >= 0 && static_cast<uint64_t>(i) < n;
  int got = -1;
  try {
    got = static_cast<int>(list[i]);
  } catch (const RangeError&) {}
  ksym_observe("got", static_cast<uint64_t>(static_cast<int64_t>(got)));
  ksym_assert(got == (ok ? static_cast<int>(i) : -1), "an index gives that element or a range error");
}
template <typename L> void indexes(const L& list, unsigned n) {
  switch (ksym_choose(8, "type")) {
  case 0: index<L, int8_t>(list, n); break;
  case 1: index<L, uint8_t>(list, n); break;
  case 2: index<L, int16_t>(list, n); break;
  case 3: index<L, uint16_t>(list, n); break;
  case 4: index<L, int32_t>(list, n); break;
  case 5: index<L, uint32_t>(list, n); break;
  case 6: index<L, int64_t>(list, n); break;
  default: index<L, uint64_t>(list, n);
  }
}
template <typename F> bool ranges(F f) {
  try {
    f();
  } catch (const RangeError&) { return true; }
  return false;
}
// position of an iterator, found without using its distance operator
template <typename L, typename It> void moves(const L& list, unsigned n, unsigned from, int64_t d, unsigned op) {
  auto it = list.begin();
  for (unsigned i = 0; i < from; ++i) ++it;
  auto want = it, end = list.end();
  const auto pos = [&](const It& x) { return static_cast<int64_t>(x - list.begin()); };
  ksym_assert(pos(it) == from, "stepping from the beginning counts");
  int64_t to = 0; // where it should be, or -1
  const auto max = static_cast<int64_t>(n) - static_cast<int64_t>(from), min = -static_cast<int64_t>(from);
  bool threw = false;
  It res = it;
  switch (op) {
  case 0: to = d >= min && d <= max ? static_cast<int64_t>(from) + d : -1; threw = ranges([&] { it += d; }); break;
  case 1: to = d <= -min && d >= -max ? static_cast<int64_t>(from) - d : -1; threw = ranges([&] { it -= d; }); break;
  case 2: to = d >= min && d <= max ? static_cast<int64_t>(from) + d : -1; threw = ranges([&] { res = it + d; }); break;
  case 3: to = d <= -min && d >= -max ? static_cast<int64_t>(from) - d : -1; threw = ranges([&] { res = it - d; }); break;
  case 4: to = from < n ? int64_t{from} + 1 : -1; threw = ranges([&] { ++it; }); break;
  case 5: to = from > 0 ? int64_t{from} - 1 : -1; threw = ranges([&] { --it; }); break;
  case 6: to = from < n ? int64_t{from} + 1 : -1; threw = ranges([&] { res = it++; }); if (!threw) ksym_assert(pos(res) == from, "postfix returns the old position"); break;
  default: to = from > 0 ? int64_t{from} - 1 : -1; threw = ranges([&] { res = it--; }); if (!threw) ksym_assert(pos(res) == from, "postfix returns the old position");
  }
  ksym_assert(threw == (to < 0), "moving out of bounds is a range error, moving within is not");
  if (op == 2 || op == 3) {
    ksym_assert(pos(it) == from, "adding does not move the iterator");
    if (!threw) it = res;
  }
  ksym_assert(pos(it) == (to < 0 ? from : to), "the iterator lands exactly as far away as asked");
  ksym_observe("pos", static_cast<uint64_t>(pos(it)));
  ksym_assert((it == end) == (pos(it) == n), "the end is the end");
  ksym_assert((it < end) == (pos(it) < n) && !(it > end) && it <= end && (it >= end) == (pos(it) == n), "positions order iterators");
}
template <typename L> void walk(const L& list, unsigned n) {
  using It = typename L::ConstIterator;
  const unsigned from = ksym_choose(n + 1, "from");
  if (ksym_choose(2, "what") == 0) {
    const unsigned op = ksym_choose(8, "operation");
    moves<L, It>(list, n, from, sym<int64_t>("offset"), op);
    return;
  }
  auto it = list.begin();
  for (unsigned i = 0; i < from; ++i) ++it;
  const auto d = sym<int64_t>("offset");
  const bool ok = d >= -static_cast<int64_t>(from) && d < static_cast<int64_t>(n - from);
  int got = -1;
  try {
    got = static_cast<int>(it[d]);
  } catch (const RangeError&) {}
  ksym_assert(got == (ok ? static_cast<int>(static_cast<int64_t>(from) + d) : -1), "iterator index gives that element or a range error");
  got = -1;
  try {
    got = static_cast<int>(*it);
  } catch (const RangeError&) {}
  ksym_assert(got == (from < n ? static_cast<int>(from) : -1), "dereferencing the end is a range error");
}
const char* const ColorNames[]{"Red", "Green", "Blue"};
const char* const DayNames[]{"Mon", "Tue", "Wed", "Thu"};
template <typename T> int find(const String& s, const T& list, unsigned way) {
  try {
    if constexpr (std::is_same_v<T, std::remove_const_t<decltype(AllDays)>>) {
      switch (way) {
      case 1: return static_cast<int>(list.fromStringAllowEmpty(s));
      case 2: return static_cast<int>(list.fromStringAllowNone(s));
      case 3: return static_cast<int>(list.fromStringAllowEmptyAndNone(s));
      default: break;
      }
    }
    return static_cast<int>(list.fromString(s));
  } catch (const DomainError&) { return -1; }
}
void names() {
  const String s = symString(ksym_choose(6, "length"), "name", true);
  const unsigned way = ksym_choose(5, "way");
  int want = -1;
  if (way == 4) {
    for (int i = 0; i < 3; ++i)
      if (s == ColorNames[i]) want = i;
    ksym_assert(find(s, AllColors, 0) == want, "only the names of the values are found");
    return;
  }
  for (int i = 0; i < 4; ++i)
    if (s == DayNames[i]) want = i;
  if ((s.empty() && (way & 1)) || (s == "None" && (way & 2))) want = 4;
  ksym_assert(find(s, AllDays, way) == want, "only the names of the values (and none) are found");
}
void toNames() {
  const auto v = sym<uint8_t>("value");
  String got = "?";
  try {
    got = toString(static_cast<Colors>(v));
  } catch (const RangeError&) {}
  ksym_assert(v < 3 ? got == ColorNames[v] : got == "?", "a value has its own name");
  got = "?";
  try {
    got = toString(static_cast<Days>(v));
  } catch (const RangeError&) {}
  ksym_assert(v < 4 ? got == DayNames[v] : got == (v == 4 ? "None" : "?"), "a value has its own name or none");
  ksym_assert(hasValue(static_cast<Days>(v)) == (v != 4) && !static_cast<Days>(v) == (v == 4), "None has no value");
}
template <typename T, unsigned N> struct Map : EnumContainer<T, N> {};
template <typename T, unsigned N> void maps() {
  EnumMap<T, int, N> m;
  const auto k = sym<uint8_t>("key");
  const auto put = [&](uint8_t i, int v) {
    try {
      m[static_cast<T>(i)] = v;
    } catch (const RangeError&) { return false; }
    return true;
  };
  const auto j = sym<uint8_t>("other");
  const bool a = put(j, 7), b = put(k, 8);
  ksym_assert(a == (j < N) && b == (k < N), "a key is accepted exactly when it is an element");
  const auto& c = m;
  const auto q = sym<uint8_t>("looked up");
  int got = -1;
  try {
    got = c[static_cast<T>(q)];
  } catch (const RangeError&) {}
  const int want = q == k && b ? 8 : q == j && a ? 7 : q <= N ? 0 : -1;
  ksym_assert(got == want, "a map holds for each element what was put there last");
}
// a map as large as its index type allows
void bigMap() {
  static EnumMap<Big, int> m;
  using It = EnumMap<Big, int>::ConstIterator;
  const unsigned from = ksym_choose(2, "from") ? 255 : 0;
  auto it = from ? m.end() : m.begin();
  const auto d = sym<int64_t>("offset");
  const bool ok = d >= -static_cast<int64_t>(from) && d <= 255 - static_cast<int64_t>(from);
  const bool back = ksym_choose(2, "back");
  if (back) ksym_assume(d != INT64_MIN);
  const bool threw = ranges([&] { if (back) it -= -d; else it += d; });
  ksym_assert(threw == !ok, "moving in a full size map is bounds checked");
  ksym_assert(it - m.begin() == (ok ? static_cast<int64_t>(from) + d : from), "moving in a full size map lands exactly");
  (void)sizeof(It);
}
struct M3 {
  EnumMap<Days, int> m;
  M3() { for (int i = 0; i < 4; ++i) m[static_cast<Days>(i)] = i; }
};
}
extern "C" void ksym_main() {
  switch (ksym_choose(9, "case")) {
  case 0: indexes(AllColors, 3); break;
  case 1: indexes(AllDays, 5); break;
  case 2: walk(AllColors, 3); break;
  case 3: walk(AllDays, 5); break;
  case 4: names(); break;
  case 5: toNames(); break;
  case 6: maps<Days, 4>(); break;
  case 7: bigMap(); break;
  default: {
    const M3 x;
    walk(x.m, 4);
  }
  }
}
