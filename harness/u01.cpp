// U01: decoding any byte string; U03: validation agrees with it
#include "h.h"
#include <kt_utils/Utf8.h>
using namespace kanji_tools;

#ifndef N
#define N 4
#endif

static void decode(size_t n) {
  const CText t{n, "text"};
  const auto* u = reinterpret_cast<const unsigned char*>(t.p);
  Codes want;
  for (size_t i = 0; i < n;) {
    const Item x = item(u + i);
    want += static_cast<char32_t>(x.code);
    i += x.len;
  }
  const auto got = fromUtf8(t.p);
  ksym_assert(sameCodes(got, want), "fromUtf8 is the definition of UTF-8");
  ksym_observe("size", got.size());
  ksym_observe_bytes("codes", got.data(), got.size() * 4);
  const auto w = fromUtf8ToWstring(t.p);
  ksym_assert(sameCodes(w, want), "wide string conversion gives the same codes");
  ksym_assert(getCode(t.p) == (want.empty() ? 0 : want[0]), "getCode is the first code");
  if (const size_t m = 1 + ksym_choose(2, "max"); m <= want.size()) {
    const auto part = fromUtf8(t.p, m);
    ksym_assert(sameCodes(part, want.substr(0, m)), "limit gives a prefix");
  }
}
// String overloads: the same result for text held in a String (embedded zero ends it)
static void strings(size_t n) {
  const Bytes s = symString(n, "text", true);
  ksym_assert(sameCodes(fromUtf8(s), fromUtf8(s.c_str())), "String overload of fromUtf8");
  const auto w = fromUtf8ToWstring(s);
  const auto c = fromUtf8(s);
  ksym_assert(sameCodes(w, c), "String overload of fromUtf8ToWstring");
  ksym_assert(getCode(s) == (c.empty() ? 0 : c[0]), "String overload of getCode");
}
extern "C" void ksym_main() {
  switch (ksym_choose(3, "case")) {
  case 0: decode(ksym_choose(N + 1, "length")); break;
  case 1: strings(ksym_choose(3, "length")); break;
  default:
    ksym_assert(fromUtf8(nullptr).empty() && getCode(nullptr) == 0 && fromUtf8ToWstring(nullptr).empty(), "null text is empty");
  }
}
