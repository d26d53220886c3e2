// U10: typed column values
#include "h.h"
#include <kt_utils/ColumnFile.h>
#include <kt_utils/Exception.h>
using namespace kanji_tools;

namespace {
enum Kind { Num, U8, U16, OptNum, OptU8, OptU16, Bool, Char, CharText, nKinds };
struct Result { bool threw, has; uint64_t v; };
template <typename T> Result opt(const std::optional<T>& x) { return {false, x.has_value(), x ? *x : uint64_t{}}; }
Result read(const ColumnFile& f, const ColumnFile::Column& c, Kind k, uint64_t max) {
  try {
    switch (k) {
    case Num: return {false, true, f.getU64(c, max)};
    case U8: return {false, true, f.getU8(c)};
    case U16: return {false, true, f.getU16(c)};
    case OptNum: return opt(f.getOptU64(c, max));
    case OptU8: return opt(f.getOptU8(c));
    case OptU16: return opt(f.getOptU16(c));
    case Bool: return {false, true, f.getBool(c)};
    case Char: return {false, true, f.getChar32(c)};
    default: return {false, true, f.getChar32(c, f.get(c))};
    }
  } catch (const DomainError&) { return {true, false, 0}; }
}
Result number(const Bytes& s, uint64_t max, bool optional) {
  if (s.empty()) return {!optional, false, 0};
  uint64_t v = 0;
  bool bad = false;
  for (char ch : s) {
    const unsigned d = static_cast<unsigned char>(ch) - unsigned{'0'};
    bad |= d > 9;
    // beyond 64 bits
    bad |= (v > UINT64_MAX / 10) | ((v == UINT64_MAX / 10) & (d > UINT64_MAX % 10));
    v = v * 10 + d;
  }
  bad |= (max != 0) & (v > max);
  return {bad, !bad, bad ? 0 : v};
}
Result want(const Bytes& s, Kind k, uint64_t max) {
  switch (k) {
  case Num: return number(s, max, false);
  case U8: return number(s, 255, false);
  case U16: return number(s, 65535, false);
  case OptNum: return number(s, max, true);
  case OptU8: return number(s, 255, true);
  case OptU16: return number(s, 65535, true);
  case Bool: {
    const bool t = s.size() == 1 && ((s[0] == 'Y') | (s[0] == 'T')), f = s.empty() || (s.size() == 1 && ((s[0] == 'N') | (s[0] == 'F')));
    return {!t && !f, t || f, t};
  }
  default: {
    bool bad = s.size() < 4 || s.size() > 5;
    uint64_t v = 0;
    if (!bad)
      for (char ch : s) {
        const unsigned c = static_cast<unsigned char>(ch), d = c - '0', h = c - 'A';
        bad |= (d > 9) & (h > 5);
        v = v * 16 + (d <= 9 ? d : h + 10);
      }
    return {bad, !bad, bad ? 0 : v};
  }
  }
}
void check(const Bytes& s, Kind k, uint64_t max) {
  for (char c : s) ksym_assume((c != '\n') & (c != '\t'));
  const std::string path = std::string(ksym_dir()) + "/f.txt";
  const Bytes text = "Before\tValue\tAfter\n12\t" + s + "\tY\n";
  ksym_write_file(path.c_str(), text.data(), text.size());
  const ColumnFile::Column b{"Before"}, c{"Value"}, a{"After"};
  ColumnFile f{path, {b, c, a}};
  f.nextRow();
  const Result w = want(s, k, max), g = read(f, c, k, max);
  ksym_observe("threw", g.threw);
  ksym_observe("value", g.v);
  ksym_assert(g.threw == w.threw, "a value is refused exactly when it is not of its documented form");
  if (g.threw) return;
  ksym_reach("accepted");
  ksym_assert(g.has == w.has && g.v == w.v, "an accepted value is exactly the one written");
}
}
extern "C" void ksym_main() {
  switch (ksym_choose(3, "case")) {
  case 0: { // any text
    const auto k = static_cast<Kind>(ksym_choose(nKinds, "kind"));
    const bool num = k == Num || k == OptNum, hex = k >= Char;
    const size_t n = ksym_choose((k == Bool ? 3 : hex ? 6 : 4) + 1 + TIER, "length");
    const Bytes s = symString(n, "value", true);
    check(s, k, num ? sym<uint64_t>("max") : 0);
    break;
  }
  case 1: { // long numbers around the limit of 64 bits: some digits arbitrary
    Bytes s{"18446744073709551615"};
    const unsigned k = ksym_choose(4, "kind");
    const auto digits = [&](size_t at, size_t n) {
      const Bytes d = symString(n, "digits");
      for (char c : d) ksym_assume((c >= '0') & (c <= '9'));
      s.replace(at, n, d);
    };
    if (k == 0) digits(16, 4); // near the limit
    if (k == 1) digits(0, 2);  // far from it
    if (k == 2) s += '0', digits(20, 1); // one digit too many
    if (k == 3) s = "9223372036854775807", digits(13, 6); // always fits
    check(s, Num, 0);
    break;
  }
  default: { // numbers with leading zeroes and a symbolic limit
    const Bytes s = symString(5, "digits");
    for (char c : s) ksym_assume((c >= '0') & (c <= '9'));
    static const Kind ks[]{U8, U16, OptU8, OptU16, Num};
    const unsigned i = ksym_choose(5, "kind");
    check("0" + s, ks[i], i == 4 ? sym<uint64_t>("max") : 0);
  }
  }
}
