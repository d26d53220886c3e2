// the definition of the characters of a text
#pragma once
#include "h.h"

namespace walk_ref {
inline bool mark(uint32_t c) { return c == 0x3099 || c == 0x309a; }
inline bool selector(uint32_t c) { return c >= 0xfe00 && c <= 0xfe0f; }
// voiced (semi = false) or semi-voiced form of a single kana, zero if none
inline uint32_t accented(uint32_t c, bool semi) {
  const bool kata = c >= 0x30a1 && c <= 0x30fa;
  const uint32_t h = kata ? c - 0x60 : c;
  if (!kata && (c < 0x3041 || c > 0x3096)) return 0;
  uint32_t r = 0;
  // か き く け こ さ ... ち: every second code; つ て と after the small tsu
  if (!semi && ((h >= 0x304b && h <= 0x3061 && (h - 0x304b) % 2 == 0) || h == 0x3064 || h == 0x3066 || h == 0x3068)) r = h + 1;
  // は ひ ふ へ ほ: every third code
  if (h >= 0x306f && h <= 0x307b && (h - 0x306f) % 3 == 0) r = h + (semi ? 2 : 1);
  if (!semi && h == 0x3046) r = 0x3094; // う
  return r ? r + (kata ? 0x60 : 0) : 0;
}
struct Walk { // the definition of the walk
  const Bytes& s;
  size_t at = 0;
  unsigned errors = 0, variants = 0, marks = 0;
  const unsigned char* p() const { return reinterpret_cast<const unsigned char*>(s.c_str()) + at; }
  bool step(Bytes& out, bool onlyMb) {
    while (at < s.size()) {
      const Item i = item(p());
      if (i.ok && i.len == 1) {
        out = Bytes(1, s[at++]);
        if (!onlyMb) return true;
      } else if (!i.ok) ++at, ++errors;
      else if (mark(i.code) || selector(i.code)) at += 3, ++errors;
      else {
        out = s.substr(at, i.len);
        at += i.len;
        const Item n = item(p());
        if (*p() && n.ok && selector(n.code)) {
          out += s.substr(at, 3);
          at += 3;
          ++variants;
        } else if (*p() && n.ok && mark(n.code)) {
          at += 3;
          const uint32_t a = accented(i.code, n.code == 0x309a);
          if (a) ++marks, out = encode(a);
          else ++errors;
        }
        return true;
      }
    }
    return false;
  }
};
}
