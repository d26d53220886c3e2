// U08: interned symbols
#include "h.h"
#include <kt_utils/Exception.h>
#include <kt_utils/Symbol.h>
using namespace kanji_tools;

namespace {
struct A final : Symbol<A> {
  using Symbol<A>::Symbol;
  inline static const String Type{"A"};
};
struct B final : Symbol<B> {
  using Symbol<B>::Symbol;
  inline static const String Type{"B"};
};
template <typename T> void check(const std::vector<T>& x, const std::vector<Bytes>& names) {
  std::vector<Bytes> distinct;
  for (auto& n : names) {
    bool seen = n.empty();
    for (auto& d : distinct) seen = seen || d == n;
    if (!seen) distinct.push_back(n);
  }
  ksym_assert(T::size() == distinct.size(), "one symbol for every distinct name");
  for (size_t i = 0; i < x.size(); ++i) {
    ksym_assert(same(x[i].name(), names[i]), "a symbol reports the text it was created from");
    ksym_assert(static_cast<bool>(x[i]) == !names[i].empty() && (x[i].id() == 0) == names[i].empty(), "only the empty name has no value");
    ksym_assert(T::exists(names[i]) == !names[i].empty(), "a created name exists");
    for (size_t j = 0; j < i; ++j) {
      const bool eq = same(names[i], names[j]);
      ksym_assert((x[i] == x[j]) == eq && (x[i] != x[j]) == !eq && (x[i].id() == x[j].id()) == eq, "symbols are equal exactly when their names are");
    }
  }
  ksym_assert(T{}.id() == 0 && !T{} && T{}.name().empty(), "a default symbol has no value");
}
void history() {
  constexpr unsigned N = TIER ? 5 : 4;
  std::vector<A> a;
  std::vector<B> b;
  std::vector<Bytes> an, bn;
  const unsigned n = ksym_choose(N + 1, "symbols");
  for (unsigned i = 0; i < n; ++i) {
    const bool second = ksym_choose(2, "family");
    const Bytes s = symString(ksym_choose(3, "length"), "name", true);
    if (second) b.emplace_back(s), bn.push_back(s);
    else a.emplace_back(s), an.push_back(s);
  }
  check(a, an);
  check(b, bn);
  const Bytes other = symString(1, "other", true);
  bool in = false;
  for (auto& x : an) in = in || x == other;
  ksym_assert(A::exists(other) == in, "only created names exist");
}
}
extern "C" void ksym_main() { history(); }
