// J07: radicals
#include "h.h"
#include <kt_kanji/RadicalData.h>
#include <kt_utils/Exception.h>
#include <kt_utils/Utf8.h>
#include <sstream>
using namespace kanji_tools;

namespace {
std::string path() { return std::string(ksym_dir()) + "/radicals.txt"; }
void write(const Bytes& text) { ksym_write_file(path().c_str(), text.data(), text.size()); }
const Bytes Head{"Number\tName\tLongName\tReading\n"};
Bytes name(unsigned n) { return encode(0x4e00 + n * 7); } // made-up names in no particular order
unsigned count; // radicals loaded
Bytes file(unsigned n) {
  Bytes s = Head;
  for (unsigned i = 1; i <= n; ++i) {
    const unsigned k = i * 5 % 223; // distinct
    s += std::to_string(i) + '\t' + name(k) + (i % 3 ? "" : " " + name(300 + i)) + "\tlong" + std::to_string(i) + "\tr" + std::to_string(i) + '\n';
  }
  return s;
}
RadicalData* data; // loaded natively
void numbers() {
  const auto n = sym<Radical::Number>("number");
  bool threw = false;
  try {
    ksym_mode(2);
    const Radical& r = data->find(n);
    ksym_assert(r.number() == n, "the radical found by a number has that number");
    ksym_reach("found");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == (n < 1 || n > count), "exactly the numbers of radicals are accepted");
}
void names() {
  const unsigned k = ksym_choose(4, "kind");
  Bytes s = symString(k == 3 ? 3 : k, "name", true);
  bool threw = false;
  unsigned want = 0;
  for (unsigned i = 1; i <= count; ++i) {
    const Bytes x = name(i * 5 % 223);
    if (k == 3) want |= same(x, s) ? i : 0;
  }
  try {
    const Radical& r = data->find(s);
    ksym_assert(r.number() == want && same(r.name(), s), "the radical found by a name has that name");
    ksym_assert(r.altForms().size() == (want % 3 ? 0 : 1) && (want % 3 || same(r.altForms()[0], name(300 + want))), "other forms");
    ksym_assert(r.longName() == "long" + std::to_string(want) && r.reading() == "r" + std::to_string(want), "long name and reading");
    std::ostringstream os;
    os << r;
    ksym_assert(os.str() == "[" + std::string(want < 10 ? 2 : want < 100 ? 1 : 0, '0') + std::to_string(want) + "] " + r.name(), "printed form");
    ksym_reach("found by name");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !want, "exactly the names of radicals are accepted");
}
void load() { // files of three radicals, the number or the name of one arbitrary
  const unsigned n = 1 + ksym_choose(3, "radicals"), at = 1 + ksym_choose(n, "changed");
  const bool num = ksym_choose(2, "number");
  const Bytes c = num ? symString(ksym_choose(4, "length"), "number", true) : symString(3 + ksym_choose(2, "length"), "name", true);
  for (char x : c) ksym_assume(x != '\t' && x != '\n');
  Bytes s = Head;
  bool ok = true;
  for (unsigned i = 1; i <= n; ++i) {
    s += (num && i == at ? c : Bytes(1, static_cast<char>('0' + i))) + '\t' + (!num && i == at ? c : name(i)) + "\tL\tR\n";
    if (num && i == at) { // digits with that value
      unsigned v = 0;
      ok = !c.empty();
      for (char x : c) {
        ok = ok && x >= '0' && x <= '9';
        v = v * 10 + static_cast<unsigned>(x - '0');
      }
      ok = ok && v == i;
    }
  }
  write(s);
  RadicalData d;
  bool threw = false;
  try {
    d.find(Radical::Number{1});
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw, "nothing is found before loading");
  threw = false;
  try {
    d.load(path());
    for (unsigned i = 1; i <= n; ++i) {
      ksym_assert(d.find(static_cast<Radical::Number>(i)).number() == i, "radicals are numbered in order");
      if (num || i != at) continue;
      const auto b = c.find(' ');
      const Bytes first = c.substr(0, b);
      if (b == Bytes::npos) ksym_assert(same(d.find(static_cast<Radical::Number>(i)).name(), c), "the name is the text of its column");
      else if (b) ksym_assert(same(d.find(static_cast<Radical::Number>(i)).name(), first), "the name is the first form");
    }
    const auto x = sym<Radical::Number>("other");
    ksym_assume(x == 0 || x > n);
    bool t2 = false;
    try {
      d.find(x);
    } catch (const DomainError&) { t2 = true; }
    ksym_assert(t2, "other numbers are refused");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !ok, "a file is accepted exactly when its radicals are numbered in order");
}
void order() {
  const auto a = sym<Radical::Number>("a"), b = sym<Radical::Number>("b");
  const Radical x{a, "一", {}, "x", "y"}, y{b, ksym_choose(2, "name") ? "一" : "丁", {"x"}, "z", ""};
  ksym_assert((x < y) == (a < b) && (x == y) == (a == b) && (y < x) == (b < a) && (x != y) == (a != b), "radicals compare by number only");
}
}
extern "C" void ksym_setup() {
  count = Radical::MaxRadicals;
  const Bytes s = file(count);
  ksym_write_file(path().c_str(), s.data(), s.size());
  data = new RadicalData;
  data->load(path());
}
extern "C" void ksym_main() {
  switch (ksym_choose(4, "case")) {
  case 0: numbers(); break;
  case 1: names(); break;
  case 2: load(); break;
  default: order();
  }
}
