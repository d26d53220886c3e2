// U11: argument lists
#include "h.h"
#include <kt_utils/Args.h>
#include <kt_utils/Exception.h>
#include <kt_kanji/KanjiData.h>
using namespace kanji_tools;

namespace {
void make() {
  static const char* const some[]{"a", "b", nullptr, "d"};
  const bool null = ksym_choose(2, "null");
  const Args::List list = null ? nullptr : some;
  const bool wide = ksym_choose(2, "int");
  const auto n = wide ? sym<int>("count") : static_cast<int>(sym<uint16_t>("count"));
  const bool ok = n >= 0 && n <= 65535 && (n == 0) == null;
  int r = 0; // 1 range error, 2 domain error
  try {
    const Args a = wide ? Args{n, list} : Args{static_cast<uint16_t>(n), list};
    ksym_assert(ok, "a list is made only from a matching count and array");
    ksym_assert(a.size() == n && static_cast<bool>(a) == (n != 0), "size");
    const auto i = sym<uint16_t>("index");
    if (i >= 4 && i < n) return; // the array of this harness ends here
    bool threw = false;
    const char* got = nullptr;
    try {
      got = a[i];
    } catch (const RangeError&) { threw = true; }
    ksym_assert(threw == (i >= n), "an index is refused exactly when not below the size");
    if (!threw) ksym_assert(got == some[i], "an argument is the one given");
  } catch (const RangeError&) { r = 1;
  } catch (const DomainError&) { r = 2; }
  ksym_assert(ok == (r == 0), "bad counts and arrays are refused");
  if (!ok) ksym_assert((r == 1) == (n < 0 || n > 65535), "counts out of range are range errors");
}
// positions of the arguments that are not shared options
void positions() {
  constexpr unsigned N = 5;
  const unsigned n = 1 + ksym_choose(N, "arguments");
  std::vector<const char*> argv{"prog"};
  std::vector<Bytes> text;
  std::vector<int> kind{0}; // 1 data option, 2 debug or info, 0 other
  for (unsigned i = 1; i < n; ++i) {
    switch (ksym_choose(TIER || n < 4 ? 5 : 4, "kind")) {
    case 0: text.emplace_back("-data"); kind.push_back(1); break;
    case 1: text.emplace_back("-debug"); kind.push_back(2); break;
    case 2: text.emplace_back("-info"); kind.push_back(2); break;
    case 3: text.emplace_back("-x"); kind.push_back(0); break;
    default: {
      // like the options, or one of them with something after it
      static const struct { const char* text; unsigned more; } Shapes[]{{"", 5}, {"-data", 1}, {"-info", 1}, {"-debu", 1}, {"-debug", 1}, {"-dat", 0}, {"", 6}};
      const auto& shape = Shapes[ksym_choose(7, "shape")];
      Bytes s = shape.text;
      const Bytes more = symString(shape.more, "argument");
      s += more;
      text.push_back(s);
      kind.push_back(s == "-data" ? 1 : s == "-info" || s == "-debug" ? 2 : 0);
    }
    }
  }
  for (auto& s : text) argv.push_back(s.c_str());
  const Args args{static_cast<uint16_t>(argv.size()), argv.data()};
  // by definition: '-data' takes its value along, '-debug' and '-info' are skipped
  std::vector<bool> skip(n + 1, false);
  for (unsigned i = 1; i < n; ++i) {
    if (kind[i] == 1 && i + 1 < n) skip[i] = skip[i + 1] = true, ++i;
    else if (kind[i] == 2) skip[i] = true;
  }
  if (kind.back() == 1) return; // usage: the value is missing
  Args::Size p = 0;
  for (;;) {
    unsigned want = p + 1u;
    while (want < n && skip[want]) ++want;
    p = KanjiData::nextArg(args, p);
    ksym_assert(p == want, "the next argument that is not a shared option");
    if (p >= n) break;
    ksym_reach("argument");
  }
}
}
extern "C" void ksym_main() {
  if (ksym_choose(2, "case")) positions();
  else make();
}
