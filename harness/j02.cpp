// J02: stroke counts
#include "h.h"
#include <kt_kanji/Strokes.h>
#include <kt_utils/Exception.h>
#include <sstream>
using namespace kanji_tools;

namespace {
Bytes dec(unsigned v) {
  Bytes s;
  if (v >= 100) s += static_cast<char>('0' + v / 100);
  if (v >= 10) s += static_cast<char>('0' + v / 10 % 10);
  return s += static_cast<char>('0' + v % 10);
}
void created(const Strokes& s, unsigned v, unsigned x) {
  ksym_assert(s.value() == v && s.variant() == x && s.hasVariant() == (x != 0), "a stroke count has the given numbers");
  ksym_assert(same(s.toString(), dec(v)) && same(s.toString(false), dec(v)), "it prints as its value");
  ksym_assert(same(s.toString(true), x ? dec(v) + '/' + dec(x) : dec(v)), "or as value and variant");
  std::ostringstream os;
  os << s;
  ksym_assert(same(os.str(), dec(v)), "stream output");
  ksym_reach("created");
}
void make() {
  const auto v = sym<uint8_t>("value"), x = sym<uint8_t>("variant");
  const bool two = ksym_choose(2, "two");
  Outcome o = Value;
  try {
    if (two) created(Strokes{v, x}, v, x);
    else created(Strokes{v}, v, 0);
  } catch (const RangeError&) { o = Range; } catch (const DomainError&) { o = Domain; }
  const bool range = two ? v < 2 || v > Strokes::Max || x < 3 || x > Strokes::MaxVariant : v < 1 || v > Strokes::Max;
  ksym_assert(o == (range ? Range : two && v == x ? Domain : Value), "exactly the counts within limits can be created");
}
Strokes any(const char* name) {
  const auto v = sym<uint8_t>(name);
  if (ksym_choose(2, "two")) {
    ksym_assume(v > 1 && v <= Strokes::Max);
    const auto x = sym<uint8_t>("variant");
    ksym_assume(x > 2 && x <= Strokes::MaxVariant);
    ksym_assume(x != v);
    return Strokes{v, x};
  }
  ksym_assume(v > 0 && v <= Strokes::Max);
  return Strokes{v};
}
void order() {
  const Strokes a = any("a"), b = any("b");
  const auto rank = [](const Strokes& x) { return x.value() * 256U + x.variant(); };
  const unsigned p = rank(a), q = rank(b);
  ksym_assert((a < b) == (p < q) && (a == b) == (p == q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a != b) == (p != q), "stroke counts order by value, then variant");
}
}
static_assert(Strokes::Max == 64 && Strokes::MaxVariant == 33);
extern "C" void ksym_main() {
  if (ksym_choose(2, "case")) order();
  else make();
}
