// S02: counting characters
#include "walkref.h"
#include <kt_stats/Utf8Count.h>
#include <kt_utils/UnicodeBlock.h>
using namespace kanji_tools;
using namespace walk_ref;

namespace {
using OptString = Utf8Count::OptString;
struct Want { // what the counter should hold
  struct Entry { Bytes name; size_t count; std::vector<std::pair<Bytes, size_t>> tags; };
  std::vector<Entry> entries;
  unsigned errors{}, variants{}, marks{};
  template <typename F> size_t add(const Bytes& s, const OptString& tag, const F& f) {
    Walk w{s};
    Bytes c;
    size_t n = 0;
    while (w.step(c, true)) {
      if (!f(c)) continue;
      ++n;
      Entry* e{};
      for (auto& i : entries)
        if (!e && i.name == c) e = &i;
      if (!e) entries.push_back({c, 0, {}}), e = &entries.back();
      ++e->count;
      if (!tag) continue;
      bool found = false;
      for (auto& i : e->tags)
        if (i.first == *tag) found = true, ++i.second;
      if (!found) e->tags.emplace_back(*tag, 1);
    }
    errors += w.errors, variants += w.variants, marks += w.marks;
    return n;
  }
};
void check(const Utf8Count& u, const Want& w) {
  ksym_assert(u.uniqueEntries() == w.entries.size() && u.map().size() == w.entries.size(), "one entry for every different character");
  for (auto& e : w.entries) {
    ksym_assert(u.count(e.name) == e.count, "the count is the number of occurrences");
    const auto t = u.tags(e.name);
    ksym_assert((t != nullptr) == !e.tags.empty(), "tags of exactly the tagged characters");
    if (!t) continue;
    bool good = t->size() == e.tags.size();
    for (auto& i : e.tags) {
      const auto j = t->find(i.first);
      good = good && j != t->end() && j->second == i.second;
    }
    ksym_assert(good, "the count of each tag is its number of occurrences");
  }
  ksym_assert(u.errors() == w.errors && u.variants() == w.variants && u.combiningMarks() == w.marks, "errors, selectors and marks are counted");
  ksym_assert(u.replacements() == 0 && u.lastReplaceTag().empty(), "nothing is replaced without a pattern");
  for (auto s : {"", "x", "\xe2\x98\x83"}) {
    bool in = false;
    for (auto& e : w.entries) in = in || e.name == s;
    ksym_assert((u.count(s) != 0) == in, "only added characters have a count");
    if (!in) ksym_assert(!u.tags(s), "only added characters have tags");
  }
}
bool all(const Bytes&) { return true; }
bool odd(const Bytes& s) { return ksym_concretize((s[s.size() - 1] & 1) != 0); }
bool hiragana(const Bytes& s) { return isHiragana(s); }
using Filter = bool (*)(const Bytes&);
const OptString Tags[]{{}, "a", ""};

#if MODE < 2
void history(Utf8Count& u, Filter f) {
  Want w;
  static const unsigned Pairs[][2]{{0, 0}, {1, 0}, {1, 1}, {1, 2}};
  const auto& pair = Pairs[ksym_choose(4, "tags")];
  for (unsigned i = 0; i < 2; ++i) {
    const auto& tag = Tags[pair[i]];
    const Bytes s = symString(ksym_choose(i || TIER ? 4 : 3, "length"), "text");
    const size_t added = u.add(s, tag);
    ksym_assert(added == w.add(s, tag, f), "the number of characters added is returned");
    if (added) ksym_reach("added");
  }
  check(u, w);
}
void characters(Utf8Count& u, Filter f) { // whole characters, marks and selectors
  Want w;
  const auto& last = Tags[ksym_choose(TIER ? 3 : 2, "tag")];
  for (unsigned i = 0; i < 2; ++i) {
    const auto& tag = i ? last : Tags[1];
    const unsigned n = ksym_choose(TIER ? 4 : 3, "characters");
    Bytes s;
    for (unsigned j = 0; j < n; ++j) {
      // one arbitrary character
      switch (ksym_choose(i || j ? 4 : TIER ? 6 : 5, "kind")) {
      case 0: s += "は\xe3\x82\x99"; break; // the same as ば
      case 1: s += "ば"; break;
      case 2: s += "は"; break;
      case 3: s += "侮\xef\xb8\x80"; break;
      case 4: {
        Bytes c = symString(3, "char");
        const auto b0 = static_cast<unsigned char>(c[0]), b1 = static_cast<unsigned char>(c[1]);
        ksym_assume(b0 == 0xe3 && (b1 == 0x81 || b1 == 0x82));
        s += c;
        break;
      }
      default: s += symChar(4, "char");
      }
    }
    ksym_assert(u.add(s, tag) == w.add(s, tag, f), "the number of characters added is returned");
    if (w.marks) ksym_reach("combined");
  }
  check(u, w);
}
#else
void file() { // lines of a file
  Bytes s;
  if (ksym_choose(2, "first")) s = "ア\n亜ア";
  s += symString(ksym_choose(TIER ? 5 : 4, "length"), "text");
  const Bytes name{"亜.txt"};
  ksym_write_file((Bytes{ksym_dir()} + '/' + name).c_str(), s.data(), s.size());
  const bool tag = ksym_choose(2, "tag");
  const bool names = ksym_choose(2, "names");
  Utf8Count u;
  Want w;
  size_t want = 0;
  const OptString t = tag ? OptString{name} : OptString{};
  for (size_t i = 0, j; i < s.size(); i = j + 1) {
    j = i;
    while (j < s.size() && !ksym_concretize(s[j] == '\n')) ++j;
    want += w.add(s.substr(i, j - i), t, all);
  }
  if (names) want += w.add(name, t, all);
  ksym_assert(u.addFile(std::filesystem::path{ksym_dir()} / name, tag, names) == want, "the number of characters of the file is returned");
  ksym_assert(u.files() == 1 && u.directories() == 0, "one file");
  check(u, w);
}
#endif
}
extern "C" void ksym_main() {
#if MODE == 0
  if (ksym_choose(2, "filter")) {
    Utf8CountIf<Filter> u{odd};
    history(u, odd);
  } else {
    Utf8Count u;
    history(u, all);
  }
#elif MODE == 1
  if (ksym_choose(2, "filter")) {
    Utf8CountIf<Filter> u{hiragana};
    characters(u, hiragana);
  } else {
    Utf8Count u;
    characters(u, all);
  }
#else
  file();
#endif
}
