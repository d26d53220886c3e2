// Q06: compound words
#include "quizref.h"
#include <kt_quiz/JukugoData.h>
#include <kt_utils/Exception.h>
#include <kt_utils/UnicodeBlock.h>
using namespace quizref;

namespace {
const char* const Files[]{"g1", "g2", "g3", "g4", "g5", "g6", "other"};
KanjiDataPtr data;
KanjiData::Path dir() { return KanjiData::Path{ksym_dir()}; }
void write(unsigned file, const Bytes& s) {
  ksym_write_file((std::string(ksym_dir()) + '/' + Files[file] + ".txt").c_str(), s.data(), s.size());
}
void clear() {
  for (unsigned i = 0; i < 7; ++i) write(i, "");
}
struct Word { Bytes name, reading; };
// the characters of a text; paths with ill-formed bytes, marks or selectors are
// not looked at
std::vector<Bytes> chars(const Bytes& s) {
  std::vector<Bytes> r;
  for (size_t i = 0; i < s.size();) {
    const Item x = item(reinterpret_cast<const unsigned char*>(s.c_str()) + i);
    ksym_assume(ksym_concretize(x.ok));
    if (x.len == 3) { // e3 82 99, e3 82 9a, ef b8 80..8f
      const auto b = [&](size_t k) { return static_cast<unsigned char>(s[i + k]); };
      if (ksym_concretize(b(0) == 0xe3) && ksym_concretize(b(1) == 0x82)) ksym_assume(b(2) != 0x99 && b(2) != 0x9a);
      if (ksym_concretize(b(0) == 0xef) && ksym_concretize(b(1) == 0xb8)) ksym_assume(b(2) >= 0x90);
    }
    r.push_back(s.substr(i, x.len));
    i += x.len;
  }
  return r;
}
bool kana(const Bytes& c) { return ksym_concretize(isHiragana(c)) || ksym_concretize(same(c, "ー")); }
bool good(const Word& w) { // two kanji, and all hiragana
  unsigned kanji = 0;
  bool all = true;
  for (auto& c : chars(w.name)) kanji += ksym_concretize(isKanji(c));
  for (auto& c : chars(w.reading)) if (!kana(c)) all = false;
  return kanji > 1 && all;
}
size_t find(const Bytes& s, char c) {
  for (size_t i = 0; i < s.size(); ++i) if (ksym_concretize(s[i] == c)) return i;
  return Bytes::npos;
}
bool onePerLine(const Bytes& s, Word& w) {
  const size_t a = find(s, '('), b = find(s, ')');
  if (a == Bytes::npos || a < 2 || !ksym_concretize(s[a - 1] == ' ') || b == Bytes::npos || b + 1 != s.size()) return false;
  w = {s.substr(0, a - 1), s.substr(a + 1, b - a - 1)};
  return good(w);
}
bool entry(const Bytes& s, Word& w) {
  const size_t a = find(s, '('), b = find(s, ')');
  if (a == Bytes::npos || b == Bytes::npos || b < a) return false;
  w = {s.substr(0, a), s.substr(a + 1, b - a - 1)};
  return good(w);
}
bool other(Bytes s, std::vector<Word>& words) {
  size_t i = 0;
  while (i + 3 <= s.size() && !ksym_concretize((s[i] == '.') & (s[i + 1] == '.') & (s[i + 2] == '.'))) ++i;
  if (i + 4 > s.size()) return false; // no dots or nothing after them
  s.erase(0, i + 4);
  while (!s.empty()) {
    const size_t e = find(s, ' ');
    Word w;
    if (!entry(s.substr(0, e), w)) return false;
    words.push_back(w);
    s.erase(0, e == Bytes::npos ? e : e + 1);
  }
  return true;
}
// tokens of a line with some arbitrary bytes put in or instead of one of them
Bytes change(const std::vector<Bytes>& tokens) {
  const unsigned p = ksym_choose(static_cast<unsigned>(tokens.size() + 1), "position");
  const unsigned drop = p < tokens.size() ? ksym_choose(2, "drop") : 0;
  const unsigned len = ksym_choose(TIER ? 5 : 4, "length");
  const Bytes x = symString(len, "text");
  for (char c : x) ksym_assume(c != '\n');
  Bytes r;
  for (unsigned i = 0; i <= tokens.size(); ++i) {
    if (i == p) r += x;
    if (i < tokens.size() && !(i == p && drop)) r += tokens[i];
  }
  return r;
}
void check(unsigned file, const Bytes& before, const Bytes& line, bool ok, const std::vector<Word>& words) {
  clear();
  write(file, before + line + '\n');
  Bytes what;
  try {
    const auto d = dir();
    const JukugoData j{data, &d};
    ksym_assert(ok, "a line that is not as documented is refused");
    for (auto& w : words)
      for (auto& c : chars(w.name))
        if (ksym_concretize(isKanji(c))) { // all words with this kanji, each of them once
          size_t n = 0, k = 0;
          const auto& l = j.find(c);
          for (auto& v : words) {
            bool has = false, dup = false;
            for (auto& x : chars(v.name)) has = has || ksym_concretize(same(x, c));
            for (auto* x = words.data(); x != &v; ++x) dup = dup || ksym_concretize(same(x->name, v.name) && same(x->reading, v.reading));
            if (!has || dup) continue;
            ++n;
            if (k < l.size()) {
              ksym_assert(same(l[k]->name(), v.name) && same(l[k]->reading(), v.reading), "the word before the bracket with the reading inside it");
              ksym_assert(l[k]->grade() == AllKanjiGrades[file] && same(l[k]->nameAndReading(), v.name + "（" + v.reading + "）"), "the grade of the file");
            }
            ++k;
          }
          ksym_assert(l.size() == n, "a word is listed once for each of its kanji");
        }
    ksym_assert(j.find("犬").empty() || ksym_concretize([&] {
      for (auto& w : words) for (auto& c : chars(w.name)) if (ksym_concretize(same(c, "犬"))) return true;
      return false;
    }()), "kanji of no word have no words");
    ksym_reach("accepted");
  } catch (const DomainError& e) { what = e.what(); }
  if (!what.empty()) {
    ksym_assert(!ok, "a line as documented is accepted");
    const Bytes pos = Bytes{" - line: "} + (before.empty() ? "1" : "2") + ", file: " + Files[file] + ".txt";
    ksym_assert(what.size() > pos.size() && same(what.substr(what.size() - pos.size()), pos), "the position is reported");
    ksym_reach("refused");
  }
}
void twoFiles() { // the same word may not be in two files
  clear();
  const unsigned a = ksym_choose(2, "first") ? 6 : 1, b = a == 6 ? 0 : ksym_choose(2, "second") ? 6 : 1;
  const auto text = [](unsigned f, const Bytes& n, const Bytes& r) { return f == 6 ? "一 ... " + n + '(' + r + ")\n" : n + " (" + r + ")\n"; };
  const Bytes name = "一" + symChar(3, "kanji"), reading = symKana("reading");
  chars(name);
  chars(reading);
  const bool ok = good({name, reading});
  const Bytes x = text(a, "一生", "い"), y = text(b, name, reading);
  if (a == b) write(a, x + y);
  else write(a, x), write(b, y);
  const bool dup = same(name, "一生") && same(reading, "い");
  try {
    const auto d = dir();
    const JukugoData j{data, &d};
    ksym_assert(ok && !(dup && a != b), "a word in two files is refused");
    ksym_assert(j.find("一").size() == (dup ? 1 : 2), "a word twice in a file is listed once");
    if (dup) ksym_reach("twice in a file");
  } catch (const DomainError& e) {
    ksym_assert(!ok || (dup && a != b), "different words are accepted");
    if (dup) ksym_assert(Bytes{e.what()}.find("found in more than one file") != Bytes::npos, "the reason is reported");
  }
}
void word() { // any word and reading
  Bytes name = ksym_choose(2, "with") ? "生" : "";
  name += symString(ksym_choose(TIER ? 5 : 4, "length"), "name");
  const Bytes reading = symString(ksym_choose(4, "reading length"), "reading");
  chars(name);
  chars(reading);
  const bool ok = good({name, reading});
  bool threw = false;
  try {
    const Jukugo j{name, reading, KanjiGrades::G1};
    ksym_assert(same(j.name(), name) && same(j.reading(), reading), "a word keeps its name and reading");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !ok, "a word has two kanji and a hiragana reading");
}
}
extern "C" void ksym_setup() { data = std::make_shared<Data>(dir()); }
extern "C" void ksym_main() {
  std::vector<Word> words;
  switch (ksym_choose(4, "part")) {
  case 0: {
    static const std::vector<Bytes> T{"一", "生", " ", "(", "い", "ー", ")"};
    const unsigned file = ksym_choose(2, "file") ? 5 : 0;
    const Bytes before = ksym_choose(2, "before") ? "生一生 (い)\n" : "";
    if (!before.empty()) words.push_back({"生一生", "い"});
    const Bytes line = change(T);
    Word w;
    const bool ok = onePerLine(line, w);
    if (ok) words.push_back(w);
    check(file, before, line, ok, words);
    break;
  }
  case 1: {
    static const std::vector<Bytes> T{"一", " ", "...", " ", "一", "生", "(", "い", ")", " ", "生", "一", "(", "い", ")"};
    const Bytes before = ksym_choose(2, "before") ? "一 ... 一生(い)\n" : "";
    if (!before.empty()) words.push_back({"一生", "い"});
    const Bytes line = change(T);
    const bool ok = other(line, words);
    check(6, before, line, ok, words);
    break;
  }
  case 2: twoFiles(); break;
  default: word();
  }
}
