// Definition of the conversions between Hiragana, Katakana and Romaji that the
// kana harnesses compare the real code with.
#pragma once
#include "h.h"

struct KanaRow {
  const char* r;        // unique Romaji
  uint16_t a, b;        // Hiragana codes (b is zero for a single kana); Katakana is 0x60 higher
  const char *hep, *kun;
  const char* var[3];   // other spellings, the first is Kunrei if 'kv' is set
  bool kv;
  int d, s, p;          // voiced, semi-voiced and plain forms
};
const KanaRow KT[]{
#include "kanatable.inc"
};
constexpr int KN = static_cast<int>(sizeof KT / sizeof *KT);
struct Delim { char n; uint16_t w; };
const Delim Delims[]{{' ', 0x3000}, {'!', 0xff01}, {'"', 0x201d}, {'#', 0xff03}, {'$', 0xff04}, {'%', 0xff05}, {'&', 0xff06},
    {'(', 0xff08}, {')', 0xff09}, {'*', 0xff0a}, {'+', 0xff0b}, {',', 0x3001}, {'.', 0x3002}, {'/', 0x30fb},
    {'0', 0xff10}, {'1', 0xff11}, {'2', 0xff12}, {'3', 0xff13}, {'4', 0xff14}, {'5', 0xff15}, {'6', 0xff16}, {'7', 0xff17},
    {'8', 0xff18}, {'9', 0xff19}, {':', 0xff1a}, {';', 0xff1b}, {'<', 0xff1c}, {'=', 0xff1d}, {'>', 0xff1e}, {'?', 0xff1f},
    {'@', 0xff20}, {'[', 0x300c}, {'\\', 0xffe5}, {']', 0x300d}, {'^', 0xff3e}, {'_', 0xff3f}, {'`', 0xff40},
    {'{', 0x300e}, {'|', 0xff5c}, {'}', 0x300f}, {'~', 0x301c}};
enum : unsigned { Hep = 1, Kun = 2, NoProlong = 4, NoSpaces = 8 };
enum : unsigned { Hira, Kata, Roma };
constexpr uint32_t Prolong = 0x30fc, Tsu = 0x3063, Nn = 0x3093;

// one piece of a text in kana: a code (zero for the end), or other text
struct Piece {
  uint32_t code;
  Bytes other;
};
using Pieces = std::vector<Piece>;
inline Bytes text(const Pieces& t) {
  Bytes r;
  for (auto& p : t) r += p.code ? encode(p.code) : p.other;
  return r;
}
inline int kfind(uint32_t a, uint32_t b = 0) {
  for (int i = 0; i < KN; ++i)
    if (KT[i].a == a && KT[i].b == b) return i;
  return -1;
}
inline Bytes krom(int i, unsigned flags) {
  const auto& k = KT[i];
  if ((flags & Hep) && *k.hep) return k.hep;
  if ((flags & Kun) && k.kv) return k.var[0];
  if ((flags & Kun) && *k.kun) return k.kun;
  return k.r;
}
inline bool doubles(char c) { // letters a small tsu can double
  return c >= 'b' && c <= 'z' && c != 'e' && c != 'i' && c != 'o' && c != 'u' && c != 'l' && c != 'n' && c != 'x';
}
inline bool smallKana(uint32_t h) {
  return h == 0x3041 || h == 0x3043 || h == 0x3045 || h == 0x3047 || h == 0x3049 || h == 0x3083 || h == 0x3085 || h == 0x3087 || h == 0x308e;
}
inline Bytes kcode(uint32_t h, unsigned target) { return h ? encode(target == Kata ? h + 0x60 : h) : Bytes{}; }

// Hiragana or Katakana to another script
inline Bytes fromKana(const Pieces& t, unsigned source, unsigned target, unsigned flags) {
  Bytes out;
  int prev = -1;
  const auto h = [&t, source](size_t i) -> uint32_t { // Hiragana code of a kana of the source script
    const uint32_t c = i < t.size() ? t[i].code : 0, x = source == Kata ? c - 0x60 : c;
    return x >= 0x3041 && x <= 0x3096 ? x : 0;
  };
  const auto group = [&h](size_t i, size_t& len) { // longest kana at i
    if (smallKana(h(i + 1))) {
      const int g = kfind(h(i), h(i + 1));
      if (g >= 0) return len = 2, g;
    }
    return len = 1, kfind(h(i));
  };
  for (size_t i = 0; i < t.size();) {
    const uint32_t c = t[i].code, rep = source == Kata ? 0x30fd : 0x309d;
    if (!c) { out += t[i++].other; continue; }
    if (!h(i)) {
      ++i;
      if (c == rep || c == rep + 1) {
        if (target != Roma) out += encode(c - rep + (target == Kata ? 0x30fd : 0x309d));
        else if (prev >= 0) {
          const int x = c == rep ? KT[prev].p : KT[prev].d;
          out += krom(x >= 0 ? x : prev, flags);
        }
        continue;
      }
      bool done = false;
      if (target == Roma)
        for (auto& d : Delims)
          if (d.w == c) out += d.n, done = true;
      if (!done) out += encode(c);
      continue;
    }
    if (target != Roma) {
      out += kcode(h(i), target);
      ++i;
      continue;
    }
    size_t len;
    int k;
    Bytes r;
    if (h(i) == Tsu && h(i + 1) && h(i + 1) != Tsu && h(i + 1) != Nn && (k = group(i + 1, len), len == 2 || !smallKana(h(i + 2))) &&
        doubles((r = krom(k, flags))[0])) { // a group that isn't a digraph is written as its parts
      r.insert(r.begin(), r[0] == 'c' ? 't' : r[0]);
      ++len;
    } else r = krom(k = group(i, len), flags);
    i += len;
    if (i < t.size() && t[i].code == Prolong) {
      ++i;
      prev = -1;
      const char v = r.back();
      const uint32_t m = v == 'a' ? 0x101 : v == 'i' ? 0x12b : v == 'u' ? 0x16b : v == 'e' ? 0x113 : v == 'o' ? 0x14d : 0;
      if (m) r.pop_back();
      out += r + encode(m ? m : Prolong);
      continue;
    }
    prev = k;
    out += r;
    if (KT[k].a == Nn && h(i)) {
      const Bytes next = krom(kfind(h(i)), flags);
      if ((next.size() == 1 && next != "n") || next == "ya" || next == "yu" || next == "yo") out += '\'';
    }
  }
  return out;
}
// an arbitrary well-formed character as a piece of a text in a script: decided
// whether it is one of the characters with a meaning there (and which)
inline Piece classify(const Bytes& s, unsigned source) {
  if (s.size() == 3 && ksym_concretize(s[0] == '\xe3') && ksym_concretize(s[1] >= '\x80' && s[1] <= '\x83')) {
    const auto b = [&s](size_t k) { return static_cast<uint32_t>(ksym_concretize(static_cast<unsigned char>(s[k]))); };
    const uint32_t c = (b(0) & 15) << 12 | (b(1) & 63) << 6 | (b(2) & 63), h = source == Kata ? c - 0x60 : c, rep = source == Kata ? 0x30fd : 0x309d;
    if ((h >= 0x3041 && h <= 0x3096) || c == rep || c == rep + 1 || c == Prolong) return {c, {}};
    for (auto& d : Delims)
      if (d.w == c) return {c, {}};
    return {0, s};
  }
  if (s.size() == 3)
    for (auto& d : Delims)
      if ((d.w >> 8) != 0x30 && ksym_concretize(same(s, encode(d.w)))) return {d.w, {}};
  return {0, s};
}
// not a combining mark or variation selector
inline void assumePlain(const Bytes& s) {
  if (s.size() != 3) return;
  if (ksym_concretize(s[0] == '\xe3')) {
    if (ksym_concretize(s[1] == '\x82')) ksym_assume(s[2] != '\x99'), ksym_assume(s[2] != '\x9a');
  } else if (ksym_concretize(s[0] == '\xef') && ksym_concretize(s[1] == '\xb8'))
    ksym_assume(s[2] > '\x8f');
}
inline char lowerCase(char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
inline bool selector(const Bytes& s, size_t i) { // one with concrete first two bytes
  return i + 3 <= s.size() && s[i] == '\xef' && s[i + 1] == '\xb8' && static_cast<unsigned char>(s[i + 2]) <= 0x8f;
}
// Romaji to Hiragana or Katakana; 's' has only single bytes, macrons and text
// without other letters
inline Bytes toKana(const Bytes& s, unsigned target, unsigned flags) {
  Bytes out;
  for (size_t i = 0; i <= s.size();) {
    // letters up to the next separator
    Bytes w, l;
    bool macron = false;
    uint32_t end = 0;
    Bytes raw;
    while (i < s.size()) {
      const Item x = item(reinterpret_cast<const unsigned char*>(s.c_str()) + i);
      Bytes here = s.substr(i, x.len);
      i += x.len;
      bool kept = false; // with a selector it's another character
      if (x.len > 1 && selector(s, i)) here += s.substr(i, 3), i += 3, kept = true;
      if (x.len == 1) {
        bool d = x.code == '\'' || x.code == '-';
        for (auto& k : Delims) d = d || x.code == static_cast<unsigned char>(k.n);
        if (d) { end = x.code; break; }
        w += here;
        continue;
      }
      const char v = x.code == 0x101 ? 'a' : x.code == 0x12b ? 'i' : x.code == 0x16b ? 'u' : x.code == 0x113 ? 'e' : x.code == 0x14d ? 'o' : '\0';
      if (v && !kept) w += v, macron = true;
      else raw = here;
      break;
    }
    for (char c : w) l += lowerCase(c);
    const size_t n = w.size();
    bool pending = false; // the letter before was not converted
    for (size_t j = 0; j < n;) {
      size_t lim = j + 1;
      while (lim < n && l[lim] != 'n') ++lim;
      size_t len = 0;
      int k = -1;
      for (size_t m = 1; m <= 3 && j + m <= lim && k < 0; ++m) {
        const char v = l[j + m - 1]; // only 'n' doesn't end in a vowel
        if (v != 'a' && v != 'i' && v != 'u' && v != 'e' && v != 'o') continue;
        const Bytes y = l.substr(j, m);
        for (int q = 0; q < KN && k < 0; ++q) {
          bool e = y == KT[q].r;
          for (auto* z : KT[q].var) e = e || y == z;
          if (e) k = q, len = m;
        }
      }
      if (k >= 0) {
        out += kcode(KT[k].a, target) + kcode(KT[k].b, target);
        j += len;
        if (j == n && macron && !(len == 1 && pending)) {
          const char v = l[n - 1];
          out += target == Hira && (flags & NoProlong) ? encode(v == 'a' ? 0x3042u : v == 'i' ? 0x3044u : v == 'u' ? 0x3046u : v == 'e' ? 0x3048u : 0x304au) : encode(Prolong);
        }
        pending = false;
        continue;
      }
      const size_t avail = lim - j;
      pending = false;
      if (l[j] == 'n' && avail != 2) out += kcode(Nn, target);
      else if (avail >= 3 && (l[j] == l[j + 1] || (l[j] == 't' && l[j + 1] == 'c')) && doubles(l[j])) out += kcode(Tsu, target);
      else out += w[j], pending = true;
      ++j;
    }
    if (end) {
      if (end != '\'' && end != '-' && !(end == ' ' && (flags & NoSpaces)))
        for (auto& d : Delims)
          if (static_cast<unsigned char>(d.n) == end) out += encode(d.w);
    } else if (!raw.empty()) out += raw;
    else if (!macron) break;
  }
  return out;
}
