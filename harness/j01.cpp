// J01: Morohashi IDs
#include "h.h"
#include <kt_kanji/MorohashiId.h>
#include <kt_utils/Exception.h>
#include <sstream>
using namespace kanji_tools;
using Type = MorohashiId::IdType;

namespace {
struct Want { bool ok; uint32_t id; Type type; };
// the documented form: nothing, digits, digits followed by ' P '' or PP, or H and digits
Want want(const Bytes& s) {
  size_t b = 0, e = s.size();
  Type t = Type::Plain;
  const auto mark = [&](char c) {
    if (e < 1 || s[e - 1] != c) return false;
    --e, t = Type::Prime;
    if (e > 0 && s[e - 1] == c) --e, t = Type::DoublePrime;
    return true;
  };
  if (!mark('\'') && !mark('P') && e > 0 && s[0] == 'H') ++b, t = Type::Supplemental;
  if (b == e) return {t == Type::Plain, 0, t};
  uint32_t v = 0;
  bool digits = true;
  for (; b < e; ++b) {
    digits &= (s[b] >= '0') & (s[b] <= '9');
    v = v * 10 + static_cast<unsigned char>(s[b] - '0');
  }
  if (!digits || v > 65535) return {false, 0, t};
  return {v != 0 || t == Type::Plain, static_cast<uint32_t>(v), t};
}
void parse() {
  const Bytes s = symString(ksym_choose((TIER ? 7 : 6) + 1, "length"), "text", true);
  const Want w = want(s);
  bool threw = false;
  try {
    const MorohashiId x{s};
    obs("id", x.id());
    ksym_assert(w.ok, "a malformed text is refused");
    ksym_assert(x.id() == w.id && x.idType() == w.type, "number and kind are those of the text");
    ksym_assert(static_cast<bool>(x) == (w.id != 0), "only a zero id is empty");
    const Bytes p = x.toString();
    obs("printed", p);
    const MorohashiId y{p};
    ksym_assert(y == x && y.id() == x.id() && y.idType() == x.idType(), "reading back what was printed gives the same id");
    ksym_assert(w.id != 0 || p.empty(), "an empty id prints nothing");
    if (w.id) { // no leading zeroes and 'P' for primes
      const Want r = want(p);
      ksym_assert(r.ok && r.id == w.id && r.type == w.type, "printed form");
      ksym_assert(p[w.type == Type::Supplemental] != '0', "no leading zeroes are printed");
    }
    std::ostringstream os;
    os << x;
    ksym_assert(same(os.str(), p), "stream output equals toString");
    ksym_reach("accepted");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !w.ok, "a well-formed text is accepted");
}
MorohashiId any(const char* name) {
  const unsigned k = ksym_choose(4, "kind"), n = ksym_choose(2, "digits") ? TIER ? 5 : 3 : 2;
  Bytes s = symString(n, name, true);
  for (auto c : s) ksym_assume(c >= '0' && c <= '9');
  if (n == 5) ksym_assume(s[0] < '6');
  ksym_assume(s[n - 1] != '0'); // not zero
  if (k == 1) s += "'";
  if (k == 2) s += "PP";
  if (k == 3) s = "H" + s;
  return MorohashiId{s};
}
void order() {
  const MorohashiId a = any("a"), b = any("b");
  const auto rank = [](const MorohashiId& x) { return x.id() * 4U + static_cast<unsigned>(x.idType()); };
  ksym_assert((a < b) == (rank(a) < rank(b)) && (a == b) == (rank(a) == rank(b)) && (a > b) == (rank(a) > rank(b)), "ids order by number, then kind");
  ksym_assert((a <= b) == !(rank(b) < rank(a)) && (a != b) == !(rank(a) == rank(b)), "derived comparisons");
  ksym_assert(!MorohashiId{} && MorohashiId{} == MorohashiId{""} && MorohashiId{}.toString().empty() && MorohashiId{} < a, "an id can be empty");
}
}
extern "C" void ksym_main() {
  if (ksym_choose(2, "case")) order();
  else parse();
}
