// S03: removing furigana
#include "furigana.h"
#include <kt_stats/Utf8Count.h>
using namespace kanji_tools;
using namespace walk_ref;

namespace {
struct Count { Bytes name; size_t n; };
bool counts(const Utf8Count& u, size_t added, const Bytes& s) {
  std::vector<Count> v;
  Walk w{s};
  Bytes c;
  size_t n = 0;
  while (w.step(c, true)) {
    ++n;
    bool found = false;
    for (auto& i : v)
      if (!found && i.name == c) found = true, ++i.n;
    if (!found) v.push_back({c, 1});
  }
  bool good = n == added && u.uniqueEntries() == v.size() && u.errors() == w.errors && u.variants() == w.variants && u.combiningMarks() == w.marks;
  for (auto& i : v) good = good && u.count(i.name) == i.n;
  return good;
}
void check(const Utf8Count& u, size_t added, const Text& t, const Bytes& tag) {
  const auto f = furigana(t);
  std::vector<size_t> unsure;
  for (size_t i = 0; i < f.size(); ++i)
    if (!f[i].sure) unsure.push_back(i);
  bool good = false;
  size_t removed = 0;
  for (unsigned kept = 0; kept < (1u << unsure.size()) && !good; ++kept) {
    std::vector<bool> drop(f.size(), true);
    for (size_t i = 0; i < unsure.size(); ++i)
      if (kept >> i & 1) drop[unsure[i]] = false;
    Bytes s;
    removed = 0;
    for (auto d : drop) removed += d;
    for (size_t i = 0; i < t.size(); ++i) {
      bool out = false;
      for (size_t k = 0; k < f.size(); ++k) out = out || (drop[k] && i >= f[k].first && i <= f[k].last);
      if (!out) s += t[i].text;
    }
    good = counts(u, added, s);
  }
  ksym_assert(good, "exactly the bracketed kana after kanji are removed and all other text is counted");
  if (!good) return;
  ksym_assert((u.replacements() > 0) == (removed > 0) && u.replacements() <= removed, "lines with something removed are counted");
  ksym_assert(u.lastReplaceTag() == (removed ? tag : Bytes{}), "the last file with something removed");
  if (removed) ksym_reach("removed");
  if (!f.empty() && f.size() > removed) ksym_reach("kept");
#if MODE == 1
  if (removed > 1) ksym_reach("two removed");
#endif
}
void file(const Text& t) {
  const Bytes s = bytes(t), name{"a.txt"};
  ksym_write_file((Bytes{ksym_dir()} + '/' + name).c_str(), s.data(), s.size());
  Utf8Count u{Utf8Count::RemoveFurigana};
  const size_t added = u.addFile(std::filesystem::path{ksym_dir()} / name, true, false);
  check(u, added, t, name);
}
void line(const Text& t) {
  const Bytes s = bytes(t);
  Utf8Count u{Utf8Count::RemoveFurigana};
  const size_t added = u.add(s, Utf8Count::OptString{"tag"});
  check(u, added, t, "tag");
}
}
extern "C" void ksym_main() {
#if MODE == 0
  // any text: a line or a file
  const Bytes kanji = "\xe6\xbc" + symString(1, "kanji", true);
  const Bytes hiragana = "\xe3\x81" + symString(1, "kana", true);
  ksym_assume(static_cast<unsigned char>(kanji[2]) >= 0x80 && static_cast<unsigned char>(kanji[2]) <= 0xbf);
  ksym_assume(static_cast<unsigned char>(hiragana[2]) >= 0x80 && static_cast<unsigned char>(hiragana[2]) <= 0xbf);
  const char* const Items[]{kanji.c_str(), "（", hiragana.c_str(), "）", "\n", "x"};
  const bool one = ksym_choose(2, "line");
  const unsigned n = ksym_choose((one || TIER) + 7, "length");
  Text t;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned k = ksym_choose(one ? 4 : TIER ? 6 : 5, "item");
    t.push_back(ch(Items[k]));
  }
  if (one) line(t);
  else file(t);
#elif MODE == 1
  // an arbitrary character and a line break in and around furigana
  static const char* const Before[][3]{{"", "", ""}, {"（", "x", ""}, {"漢", "\n", "（"}, {"）", "\n", ""}, {"漢", "（", "\n"}, {"か", "）", ""}};
  static const char* const After[][4]{{"", "", "", ""}, {"（", "か", "）", ""}, {"漢", "（", "か", "）"}, {"\n", "（", "か", "）"}, {"）", "", "", ""}};
  const char* const Core[]{"漢", "（", "か", "な", "）"};
  const unsigned before = ksym_choose(TIER ? 6 : 4, "before");
  const unsigned after = ksym_choose(TIER ? 5 : 4, "after");
  const unsigned put = ksym_choose(6, "character");
  const unsigned size = ksym_choose(3, "size");
  const unsigned brk = size == 1 || TIER ? ksym_choose(7, "break") : 6;
  Text t;
  for (auto s : Before[before])
    if (*s) t.push_back(ch(s));
  if (brk == 5) t.push_back(ch("\n"));
  for (unsigned i = 0; i < 5; ++i) {
    t.push_back(put == i ? any(2 + size) : ch(Core[i]));
    if (i == brk) t.push_back(ch("\n"));
  }
  if (put == 5) t.push_back(any(2 + size));
  for (auto s : After[after])
    if (*s) t.push_back(ch(s));
  file(t);
#else
  // any bytes
  const Bytes s = symString(ksym_choose(TIER ? 6 : 5, "length"), "text");
  Utf8Count u{Utf8Count::RemoveFurigana};
  const size_t added = u.add(s);
  ksym_assert(counts(u, added, s), "text without furigana is counted as it is");
  ksym_assert(u.replacements() == 0, "nothing is replaced");
  if (u.errors()) ksym_reach("ill-formed");
#endif
}
