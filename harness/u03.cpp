// U03: validation
#include "h.h"
#include <kt_utils/Utf8.h>
using namespace kanji_tools;

#ifndef N
#define N 5
#endif
using R = Utf8Result;

// the documented result for a text whose first byte is not Ascii
static R want(const unsigned char* p, size_t n, bool one) {
  if (p[0] < 0xc0) return R::ContinuationByte;
  const auto cont = [p](size_t i) { return p[i] >= 0x80 && p[i] < 0xc0; };
  const size_t need = p[0] < 0xe0 ? 2 : p[0] < 0xf0 ? 3 : 4;
  // bytes are looked at one by one; five or more byte forms are recognised
  // once their third byte is known to be there
  for (size_t i = 1; i < need; ++i) {
    if (i == 3 && p[0] >= 0xf8) return R::CharTooLong;
    if (!cont(i)) return R::MissingBytes;
  }
  const Item x = item(p);
  if (!x.ok) {
    uint32_t v = p[0] & (0x7fu >> need);
    for (size_t i = 1; i < need; ++i) v = v * 64 + (p[i] & 63u);
    const bool overlong = need == 2 ? v < 0x80 : need == 3 ? v < 0x800 : v < 0x10000;
    return overlong ? R::Overlong : R::InvalidCodePoint;
  }
  return one && n > need ? R::StringTooLong : R::Valid;
}

extern "C" void ksym_main() {
  const size_t n = ksym_choose(N + 1, "length");
  const bool one = ksym_choose(2, "one") == 1;
  const CText t{n, "text"};
  const auto* u = reinterpret_cast<const unsigned char*>(t.p);
  R e = R::Valid;
  const auto m = validateMBUtf8(t.p, e, one);
  ksym_observe("m", static_cast<uint64_t>(m));
  ksym_observe("e", static_cast<uint64_t>(e));
  if (n == 0 || u[0] < 0x80) {
    ksym_assert(m == MBUtf8Result::NotMultiByte, "Ascii and empty text is not multi-byte");
    ksym_assert(!isValidMBUtf8(t.p, one), "Ascii is not valid multi-byte");
    return;
  }
  const R w = want(u, n, one);
  ksym_assert((m == MBUtf8Result::Valid) == (w == R::Valid) && m != MBUtf8Result::NotMultiByte, "accepted exactly when well-formed");
  ksym_assert(m == MBUtf8Result::Valid || e == w, "the reported error is the first one");
  ksym_assert(validateUtf8(t.p, one) == w, "validateUtf8 gives the same result");
  ksym_assert(isValidUtf8(t.p, one) == (w == R::Valid), "isValidUtf8 agrees");
  ksym_assert(isValidMBUtf8(t.p, one) == (w == R::Valid), "isValidMBUtf8 agrees");
  const auto c = fromUtf8(t.p, 1);
  if (w == R::Valid) {
    ksym_reach("valid");
    ksym_assert(same(toUtf8(c), Bytes(t.p, item(u).len)), "accepted text re-encodes to the same bytes");
  } else if (w != R::StringTooLong)
    ksym_assert(c.size() == 1 && c[0] == 0xfffd, "rejected text decodes to a replacement");
}
