// Q07: groups and members asked by group quizzes
#include "quizrun.h"
using namespace quizref;

namespace {
const char* const Names[]{"一", "二", "三", "四", "五", "六"};
const char* const Labels[]{"甲", "乙", "丙"};
unsigned seed, count;
struct Want {
  Bytes name;
  std::vector<Bytes> members;
  size_t all;
};
void check(const GroupData::List& list, const std::vector<Want>& want, bool quiz, unsigned order, GroupQuiz::MemberType kind, Bytes typed, bool pattern) {
  for (size_t i = 0; i < want.size(); ++i) typed += ".\n";
  std::istringstream in{typed};
  static const char* const Args[2][3]{{"-r1", "-r-1", "-r0"}, {"-t1", "-t-1", "-t0"}};
  const char* argv[]{"quiz", Args[quiz][order]};
  const QuizLauncher launcher{{2, argv}, data, groups, jukugo, &in};
  sink.str({});
  // a quiz without questions can't start at the first one
  const auto start = static_cast<uint16_t>(want.empty() ? 0 : order < 2 ? 1 : 0);
  { const GroupQuiz q{launcher, start, false, list, kind}; }
  const auto text = split(sink.str());
  const Bytes n = std::to_string(want.size());
  bool begun = false;
  std::vector<Want> got;
  for (size_t i = 0; i < text.size(); ++i) {
    const Bytes& s = text[i];
    if (s.find("Starting ") != Bytes::npos) {
      ksym_assert(s.find(Bytes{"Starting "} + (quiz ? "quiz" : "review") + " for " + n + (pattern ? " Pattern" : " Meaning") + " groups") != Bytes::npos, "the quiz has the groups with two or more members of the kind");
      begun = true;
    }
    const size_t p = s.find('/' + n + ":  ["), e = s.find("], ");
    if (p == Bytes::npos || e == Bytes::npos) continue;
    ksym_assert(s.substr(0, p) == (quiz ? "Question " : "") + std::to_string(got.size() + 1), "questions follow each other");
    const size_t b = p + n.size() + 5;
    Want w{s.substr(b, e - b), {}, 0};
    if (w.name.rfind("Peers ", 0) == 0) w.name = w.name.substr(6 + 3);
    size_t rows = 0;
    for (; i + rows + 1 < text.size(); ++rows) {
      const Bytes& r = text[i + rows + 1];
      const Bytes no = std::to_string(rows + 1) + ":  ";
      const size_t q = r.find(no);
      if (q == Bytes::npos) break;
      w.members.push_back(r.substr(q + no.size(), 3));
    }
    const Bytes rest = s.substr(e + 3);
    for (auto& x : want)
      if (x.name == w.name) {
        w.all = x.all;
        ksym_assert(rest == (rows == x.all ? std::to_string(rows) : "showing " + std::to_string(rows) + " out of " + std::to_string(x.all)) + " members", "the number of members is shown");
      }
    got.push_back(w);
  }
  ksym_assert(begun, "a quiz begins");
  bool good = got.size() == want.size();
  if (order < 2) {
    for (size_t i = 0; good && i < want.size(); ++i) {
      const auto& g = got[order ? want.size() - 1 - i : i];
      good = g.name == want[i].name && (quiz ? g.members.size() == want[i].members.size() : g.members == want[i].members);
    }
  } else
    for (auto& x : want) {
      unsigned c = 0;
      for (auto& g : got) c += g.name == x.name && g.members.size() == x.members.size();
      good = good && c == 1;
    }
  ksym_assert(good, "exactly the groups of the quiz are asked with their members");
  if (quiz) // members may be shown in any order
    for (auto& g : got)
      for (auto& x : want)
        if (g.name == x.name)
          for (auto& m : x.members) {
            bool found = false;
            for (auto& y : g.members) found = found || y == m;
            ksym_assert(found, "exactly the members of the kind are shown");
          }
  if (want.empty()) ksym_reach("no groups");
  if (want.size() > 1) ksym_reach("two groups");
}
KanjiPtr fixed[12][3]; // of each pattern group
}
extern "C" unsigned ksym_draw() { return (seed + ++count) * 0x9e3779b1U; }
const char* const Patterns[]{"：ア", "亜：エイ", "伽：カ", "：キ", "：サ", "倉：ソウ", "：タイ", "：ナ", "：ハ", "麻：マ", "：ヤク", "：ラ"};
extern "C" void ksym_setup() {
  for (unsigned i = 0; i < 12; ++i)
    for (unsigned j = 0; j < 3; ++j) {
      Bytes name{'\xe4', static_cast<char>(0xb8 + i / 8), static_cast<char>(0x80 + i % 8 * 4 + j)};
      fixed[i][j] = keep({name, j == 2 ? "" : "い"});
    }
  const auto d = putFiles();
  setup(std::make_shared<Data>(d), d);
}
extern "C" void ksym_main() {
  count = 0;
  using enum GroupQuiz::MemberType;
  constexpr GroupQuiz::MemberType Kinds[]{Jouyou, JLPT, Frequency, All};
#ifdef PATTERN
  // ranges of pattern groups, groups 2, 4, 6, 8 and 10 begin them
  seed = 0;
  unsigned order = ksym_choose(2, "order");
  const unsigned few = ksym_choose(TIER ? 13 : 6, "short"), out = ksym_choose(TIER ? 64 : 8, "missing");
  const char key = sym<char>("key");
  ksym_assume(key >= '1' && key <= '6');
  GroupData::List list;
  std::vector<Want> want;
  for (unsigned i = 0, bucket = 0, odd = 0; i < 12; ++i) {
    if (i && i % 2 == 0) ++bucket;
    const bool begins = i && i % 2 == 0;
    if (!begins) {
      const bool missing = i ? out >> odd & 1U : false; // the first one is always there
      if (i) ++odd;
      if (missing) continue;
    }
    const bool isShort = TIER ? few == i : few == i / 2 && begins; // with one member that has a reading
    const Bytes name = Patterns[i];
    KanjiData::List l{fixed[i][0], fixed[i][isShort ? 2 : 1]};
    list.push_back(std::make_shared<PatternGroup>(static_cast<Group::Number>(i), name, l, name.rfind("：", 0) == 0 ? Group::PatternType::Peer : Group::PatternType::Family));
    if (!isShort && ksym_concretize(key == static_cast<char>('1' + bucket))) want.push_back({name, {l[0]->name(), l[1]->name()}, 2});
  }
  const bool byDefault = ksym_choose(2, "default") && ksym_concretize(key == '1');
  check(list, want, false, order, Kinds[3], byDefault ? "\n" : Bytes{key} + '\n', true);
#else
  const bool quiz = ksym_choose(2, "quiz");
  const unsigned order = ksym_choose(3, "order"), kind = ksym_choose(4, "kind");
  seed = order == 2 ? ksym_choose(2, "seed") : 0;
  const unsigned size = 1 + ksym_choose(TIER ? 3 : 2, "groups");
  GroupData::List list;
  std::vector<Want> want;
  for (unsigned g = 0, k = 0; g < size; ++g) {
    const unsigned n = g ? 2 : 2 + ksym_choose(TIER || size == 1 ? 2 : 1, "members");
    KanjiData::List l;
    Want w{Labels[g], {}, n};
    for (unsigned i = 0; i < n; ++i, ++k) {
      Attr a{Names[k]};
      // the first member of the second group and later are of one of few kinds
      const bool fix = g && i;
      if (fix || ksym_choose(2, "has reading")) a.reading = "い";
      if (!fix) {
        a.type = static_cast<KanjiTypes>(sym<uint8_t>("type") & 7U);
        ksym_assume(static_cast<unsigned>(a.type) <= static_cast<unsigned>(KanjiTypes::None));
        a.level = static_cast<JlptLevels>(sym<uint8_t>("level"));
        ksym_assume(static_cast<unsigned>(a.level) <= static_cast<unsigned>(JlptLevels::None));
        a.freq = sym<uint16_t>("frequency");
      }
      const KanjiPtr p = keep(a);
      l.push_back(p);
      const bool in = a.type == KanjiTypes::Jouyou || (kind > 0 && a.level != JlptLevels::None) || (kind > 1 && a.freq != 0) || kind > 2;
      if (ksym_concretize(in && !a.reading.empty())) w.members.push_back(a.name);
    }
    list.push_back(std::make_shared<MeaningGroup>(static_cast<Group::Number>(g), Labels[g], l));
    if (w.members.size() > 1) want.push_back(w);
  }
  check(list, want, quiz, order, Kinds[kind], {}, false);
#endif
}
