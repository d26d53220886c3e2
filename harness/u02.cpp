// U02: encoding every 32-bit value
#include "h.h"
#include <kt_utils/Utf8.h>
using namespace kanji_tools;

static Bytes want(uint32_t c) { return scalar(c) ? encode(c) : "\xef\xbf\xbd"; }

extern "C" void ksym_main() {
  const unsigned k = ksym_choose(3, "case");
  if (k == 0) {
    const auto c = sym<uint32_t>("code");
    const Bytes w = want(c);
    const auto s = toUtf8(static_cast<Code>(c));
    ksym_assert(same(s, w), "a code point is encoded as defined");
    ksym_assert(same(toUtf8(c), w), "unsigned overload");
    ksym_assert(same(toUtf8(static_cast<int>(c)), w), "int overload");
    ksym_observe_bytes("s", s.data(), s.size());
    if (scalar(c) && c) {
      ksym_reach("round trip");
      const auto back = fromUtf8(s);
      ksym_assert(back.size() == 1 && back[0] == c, "decoding gives the same code point");
      ksym_assert(getCode(s) == c, "getCode gives the same code point");
    }
  } else {
    constexpr size_t N = TIER ? 4 : 3;
    const size_t n = ksym_choose(N + 1, "length");
    Bytes w;
    CodeString c;
    std::wstring v;
    for (size_t i = 0; i < n; ++i) {
      const auto x = sym<uint32_t>("code");
      w += want(x);
      c += static_cast<Code>(x);
      v += static_cast<wchar_t>(x);
    }
    if (k == 1) ksym_assert(same(toUtf8(c), w), "a string is the concatenation of its members");
    else ksym_assert(same(toUtf8(v), w), "a wide string is the concatenation of its members");
  }
}
