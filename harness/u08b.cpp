// U08 at capacity: the family is filled natively, then symbolic requests follow
#include "h.h"
#include <kt_utils/Exception.h>
#include <kt_utils/Symbol.h>
using namespace kanji_tools;

namespace {
struct A final : Symbol<A> {
  using Symbol<A>::Symbol;
  inline static const String Type{"A"};
};
constexpr unsigned Max = 65534;
String nameOf(unsigned i) {
  String s(4, '0');
  for (int k = 3; k >= 0; --k, i /= 16) s[static_cast<size_t>(k)] = "0123456789abcdef"[i % 16];
  return s;
}
}
extern "C" void ksym_setup() {
  for (unsigned i = 0; i < Max - 1; ++i) A{nameOf(i)};
}
extern "C" void ksym_main() {
  const bool full = ksym_choose(2, "full");
  unsigned size = Max - 1;
  if (full) {
    const A last{"last"};
    ++size;
    ksym_assert(last.name() == "last" && last.id() == Max, "the last symbol");
  }
  ksym_assert(A::size() == size, "size");
  // empty, as long as the existing names, or much longer
  const unsigned len = ksym_choose(3, "length");
  String s = len == 2 ? "a name as long as this " + symString(2, "name", true) : symString(len * 4, "name", true);
  if (s.size() == 4) // the names of the last 256
    for (size_t i = 0; i < 2; ++i) ksym_assume(s[i] == 'f');
  bool known = s.size() == 4;
  unsigned v = 0;
  for (char c : s) {
    const unsigned d = static_cast<unsigned char>(c) - '0', h = static_cast<unsigned char>(c) - 'a';
    known &= (d < 10) | (h < 6);
    v = v * 16 + (d < 10 ? d : h + 10);
  }
  known = known && v < Max - 1;
  bool threw = false;
  Bytes got;
  unsigned id = 0;
  try {
    const A x{s};
    got = x.name();
    id = x.id();
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == (full && !known && !s.empty()), "a new name is refused exactly when the family is full");
  if (threw) {
    ksym_assert(A::size() == Max, "nothing is added to a full family");
    return;
  }
  ksym_assert(same(got, s), "the name of the symbol");
  ksym_assert(s.empty() ? id == 0 : known ? id == v + 1 : id == size + 1, "existing names keep their symbol");
  ksym_assert(A::exists(s) == !s.empty(), "it exists now");
}
