// S04: statistics of a file
#include "furigana.h"
#include "quizref.h"
#include <kt_stats/Stats.h>
#include <kt_utils/UnicodeBlock.h>
using namespace quizref;
using namespace walk_ref;

unsigned ksymOrder;
namespace {
KanjiDataPtr data;
const char* const Ucds[]{"漢", "字", "亜", "一", "二", "三", "四", "五", "\xf0\xaa\x9c\x80"};
const Attr* find(const Bytes& s) {
  static const Attr Known[]{
    {"漢", "", "", KanjiTypes::Jouyou, KanjiGrades::None, JlptLevels::N3, KenteiKyus::None, 7}, {"字", "", "", KanjiTypes::Jouyou, KanjiGrades::None, JlptLevels::None, KenteiKyus::None, 5},
    {"亜", "", "", KanjiTypes::Jinmei}, {"一", "", "", KanjiTypes::Jouyou}, {"二", "", "", KanjiTypes::Jouyou}, {"三", "", "", KanjiTypes::Jouyou, KanjiGrades::None, JlptLevels::N5},
    {"四", "", "", KanjiTypes::Jouyou, KanjiGrades::None, JlptLevels::None, KenteiKyus::None, 2000}, {"五", "", "", KanjiTypes::Extra}, {"\xf0\xaa\x9c\x80", "", "", KanjiTypes::Ucd}};
  for (auto& k : Known)
    if (s.size() == k.name.size() && ksym_concretize(same(s, k.name))) return &k;
  return {};
}
const char* const Types[]{"Jouyou", "Jinmei", "LinkedJinmei", "LinkedOld", "Frequency", "Extra", "Kentei", "Ucd"};
struct Row { Bytes name; size_t count; const Attr* known; };
// more frequent first, then by frequency, type and name
bool before(const Row& a, const Row& b) {
  if (a.count != b.count) return a.count > b.count;
  const auto f = [](const Row& r) { return !r.known ? 99999U : r.known->freq ? r.known->freq : 9999U; };
  if (f(a) != f(b)) return f(a) < f(b);
  const auto t = [](const Row& r) { return r.known ? static_cast<unsigned>(r.known->type) : 99U; };
  if (t(a) != t(b)) return t(a) < t(b);
  for (size_t i = 0; i < a.name.size() && i < b.name.size(); ++i)
    if (ksym_concretize(a.name[i] != b.name[i])) return ksym_concretize(static_cast<unsigned char>(a.name[i]) < static_cast<unsigned char>(b.name[i]));
  return a.name.size() < b.name.size();
}
Bytes pad(const Bytes& s, size_t n) { return s.size() < n ? Bytes(n - s.size(), ' ') + s : s; }
Bytes num(size_t x, size_t n) { return pad(std::to_string(x), n); }
Bytes percent(size_t part, size_t all, unsigned places) { // no ties with few characters
  const size_t unit = places == 1 ? 10 : 100;
  const size_t v = (part * 100 * unit * 2 / all + 1) / 2;
  Bytes f = std::to_string(v % unit);
  while (f.size() < places) f = '0' + f;
  return std::to_string(v / unit) + '.' + f;
}
Bytes code(const Bytes& s) { // U+ and at least four digits
  Bytes r;
  const uint32_t c = item(reinterpret_cast<const unsigned char*>(s.c_str())).code;
  const bool five = ksym_concretize(c >= 0x10000), six = ksym_concretize(c >= 0x100000);
  for (int i = six ? 20 : five ? 16 : 12; i >= 0; i -= 4) {
    const unsigned d = c >> i & 15;
    r += static_cast<char>(d + '0' + (d > 9) * 7);
  }
  return "U+" + r;
}
enum Class { Hiragana, Katakana, Common, Rare, NonUcd, Punctuation, Symbol, Letter, Unrecognized, Classes };
const char* const Names[]{"Hiragana", "Katakana", "Common Kanji", "Rare Kanji", "Non-UCD Kanji", "MB-Punctuation", "MB-Symbol", "MB-Letter", "Unrecognized"};
int classOf(const Bytes& s) {
  const bool known = find(s);
  const bool is[]{isHiragana(s), isKatakana(s), isCommonKanji(s) && known, isRareKanji(s) && known, isKanji(s) && !known, isMBPunctuation(s), isMBSymbol(s), isMBLetter(s), !isRecognizedUtf8(s)};
  int r = -1, n = 0;
  for (int i = 0; i < Classes; ++i)
    if (is[i]) r = i, ++n;
  ksym_assert(s == "　" ? n == 0 : n == 1, "every character has exactly one class");
  return r;
}
struct Rows {
  std::vector<Row> v[Classes];
  size_t total[Classes]{};
  unsigned errors{}, variants{}, marks{};
  void add(const Bytes& s) {
    Walk w{s};
    Bytes c;
    while (w.step(c, true)) {
      const int k = classOf(c);
      if (k < 0) continue;
      ++total[k];
      bool found = false;
      for (auto& r : v[k])
        if (!found && r.name == c) found = true, ++r.count;
      if (!found) v[k].push_back({c, 1, find(c)});
    }
    errors += w.errors, variants += w.variants, marks += w.marks;
  }
  void rank() {
    for (auto& x : v)
      for (size_t i = 1; i < x.size(); ++i)
        for (size_t j = i; j && before(x[j], x[j - 1]); --j) std::swap(x[j], x[j - 1]);
  }
};
Bytes heading(const Bytes& name, size_t total, size_t unique) { return ">>> " + pad(name, 16) + ": " + num(total, 6) + ", unique: " + num(unique, 4); }
Bytes list(const std::vector<Row>& v, int type) { // at most five
  Bytes s;
  unsigned n = 0;
  for (auto& r : v)
    if ((type < 0 || (r.known && static_cast<int>(r.known->type) == type)) && n++ < 5) s += (n > 1 ? ", " : "") + r.name + ' ' + std::to_string(r.count);
  return s;
}
Bytes report(const Rows& all, const Rows& without, unsigned replaced, const Bytes& file, bool breakdown) {
  Bytes s = ">>> Stats for: '" + file + "' - showing top 5 Kanji per type";
  if (replaced || without.marks || without.variants)
    s += "\n>>> Furigana Removed: " + std::to_string(replaced) + ", Combining Marks Replaced: " + std::to_string(without.marks) + ", Variation Selectors: " + std::to_string(without.variants);
  if (without.errors) s += ", Errors: " + std::to_string(without.errors);
  s += '\n';
  size_t sum[3]{};
  for (int c = 0; c < Classes; ++c) {
    const bool kanji = c == Common || c == Rare || c == NonUcd;
    const Rows& r = c == Hiragana || c == Katakana || c == Letter ? without : all;
    const auto& v = r.v[c];
    const size_t total = r.total[c];
    if (c <= NonUcd) sum[c < 2 ? c : 2] += total;
    if (!total) continue;
    s += heading(Names[c], total, v.size());
    if (c == Common) {
      s += ", 100.00%\n";
      for (int t = 0; t < 8; ++t) {
        size_t n = 0, unique = 0;
        for (auto& x : v)
          if (static_cast<int>(x.known->type) == t) n += x.count, ++unique;
        if (n) s += heading('[' + Bytes{Types[t]} + "] ", n, unique) + ", " + pad(percent(n, total, 2), 6) + "%  (" + list(v, t) + ")\n";
      }
    } else if (kanji) s += Bytes(11, ' ') + '(' + list(v, -1) + ")\n";
    else s += '\n';
    if (c != Unrecognized && !(kanji && breakdown)) continue;
    s += Bytes{">>> Showing Breakdown for '"} + Names[c] + "':\n  Rank  [Val Num]" + (c == Common || c == Rare ? " Freq, LV, Type\n" : ", Unicode, Highest Count File\n");
    size_t rank = 0;
    for (auto& x : v) {
      s += "  ";
      if (breakdown) {
        const Bytes n = std::to_string(++rank);
        s += n + Bytes(6 - n.size(), ' ');
      }
      s += '[' + x.name + ' ' + num(x.count, 4) + ']';
      if (x.known) s += num(x.known->freq, 5) + ", " + (x.known->level == JlptLevels::N3 ? "N3" : x.known->level == JlptLevels::N5 ? "N5" : "--") + ", " + Types[static_cast<unsigned>(x.known->type)];
      else s += ", " + pad(code(x.name), 7) + ", " + file;
      s += '\n';
    }
  }
  const size_t total = sum[0] + sum[1] + sum[2];
  s += ">>> Total Kana+Kanji: " + std::to_string(total);
  if (total) {
    s += " (";
    for (int i = 0; i < 2; ++i)
      if (sum[i]) s += Bytes{Names[i]} + ": " + percent(sum[i], total, 1) + "%, ";
    s += "Kanji: " + percent(sum[2], total, 1) + "%)";
  }
  return s + '\n';
}
void check(const Text& t, const Bytes& name, bool breakdown) {
  const Bytes s = bytes(t), path = Bytes{ksym_dir()} + '/' + name;
  ksym_write_file(path.c_str(), s.data(), s.size());
  Rows all, without;
  const auto f = furigana(t);
  Text rest;
  for (size_t i = 0; i < t.size(); ++i) {
    bool out = false;
    for (auto& k : f) {
      ksym_assume(k.sure);
      out = out || (i >= k.first && i <= k.last);
    }
    if (!out) rest.push_back(t[i]);
  }
  all.add(s);
  without.add(bytes(rest));
  all.add(name);
  without.add(name);
  all.rank();
  without.rank();
  const Bytes want = report(all, without, f.empty() ? 0 : 1, name, breakdown);
  sink.str({});
  std::ksym_future::pending.clear();
  const char* const plain[]{"stats", path.c_str()};
  const char* const options[]{"stats", "-b", path.c_str()};
  if (breakdown) const Stats x{{3, options}, data};
  else const Stats x{{2, plain}, data};
  const Bytes got = sink.str();
  obs("report", got);
  obs("wanted", want);
  ksym_assert(same(got, want), "the report is exactly about the characters of the file");
  if (!f.empty()) ksym_reach("furigana");
}
}
extern "C" void ksym_setup() {
  Bytes s{"Code\tName\tBlock\tVersion\tRadical\tStrokes\tVStrokes\tPinyin\tMorohashiId\tNelsonIds\tSources\tJSource\tJoyo\tJinmei\tLinkCodes\tLinkNames\tLinkType\tMeaning\tOn\tKun\tJapanese\n"};
  const auto d = std::make_shared<Data>(KanjiData::Path{ksym_dir()});
  const auto path = Bytes{ksym_dir()} + "/ucd.txt";
  for (auto u : Ucds) {
    s += code(u).substr(2) + '\t' + u + "\tCJK\t1.1\t1\t5" + Bytes(13, '\t') + "ICHI\t\t\n";
    d->add(*find(u));
  }
  ksym_write_file(path.c_str(), s.data(), s.size());
  d->loadUcd(path);
  data = d;
}
extern "C" void ksym_main() {
  static const char* const Items[]{"", "漢", "字", "亜", "\xf0\xaa\x9c\x80", "か", "ア", "。", "☆", "Ａ", "\xd8\xa8", "　", "丂", "x", "\n"};
  static const std::vector<const char*> Before[]{{"か"}, {"漢", "（", "か", "\n", "）"}, {"一", "二", "三", "四", "五", "字", "漢"}, {}};
  Text t;
  for (auto s : Before[ksym_choose(TIER ? 4 : 3, "before")]) t.push_back(ch(s));
  // the content or the options, or both
  const unsigned part = ksym_choose(TIER ? 3 : 2, "part");
  const auto one = Items[part == 1 ? 1 : ksym_choose(15, "item")];
  if (*one) t.push_back(ch(one));
  t.push_back(any(part == 1 || (*one && !TIER) ? 3 : 2 + ksym_choose(3, "size")));
  ksymOrder = part ? ksym_choose(3, "order") : 1;
  const Bytes name{part && ksym_choose(2, "name") ? "漢.txt" : "a.txt"};
  check(t, name, part ? ksym_choose(2, "breakdown") : true);
}
