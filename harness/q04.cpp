// Q04: answers of group quizzes
#include "quizrun.h"
using namespace quizref;

namespace {
constexpr unsigned Big = 58;
const char* const Names[]{"一", "二", "三", "四", "五"};
const char* const Readings[]{"い", "に", "さん"};
const char* const Meanings[]{"one", "two", "three"};
KanjiPtr pool[5][3][3]; // kanji i with reading j and meaning k
KanjiPtr many[Big];
unsigned seed, count;

// what is shown for a group: the reading and the meaning of each member and of each key
struct Row {
  Bytes name, key, reading, meaning, given;
};
struct Shown {
  unsigned pos;
  std::vector<Row> rows;
};
Bytes part(const Bytes& s, size_t from, size_t to) { return from < to ? s.substr(from, to - from) : Bytes{}; }
Bytes trim(const Bytes& s) {
  const size_t b = s.find_first_not_of(' ');
  return b == Bytes::npos ? Bytes{} : s.substr(b, s.find_last_not_of(' ') + 1 - b);
}
char keyOf(unsigned i) { return static_cast<char>(i < 26 ? 'a' + i : 'A' + i - 26); }

struct Line {
  char c{};
  bool empty{};
};
std::vector<Line> lines; // what is typed
size_t at;
// the next line that is one of the keys offered, none: the prompt has a default
char next(const Bytes& keys, bool def = false) {
  for (;;) {
    const Line l = lines.at(at++);
    if (l.empty) {
      if (def) return 0;
    } else
      for (char k : keys)
        if (ksym_concretize(l.c == k)) return k;
  }
}
Bytes typed() {
  Bytes s;
  for (auto& i : lines) {
    if (!i.empty) s += i.c;
    s += '\n';
  }
  return s;
}

void check(const GroupData::List& list, const std::vector<std::vector<Attr>>& groups, bool quiz, bool meanings, unsigned members) {
  std::istringstream in{typed()};
  const char* argv[]{"quiz", quiz ? "-t1" : "-r1"};
  const QuizLauncher launcher{{2, argv}, data, quizref::groups, jukugo, &in};
  sink.str({});
  { const GroupQuiz q{launcher, 0, meanings, list, GroupQuiz::MemberType::All}; }
  const auto text = split(sink.str());
  // read what was shown
  std::vector<Shown> shown;
  std::vector<Bytes> results;
  Bytes score;
  const Bytes total = '/' + std::to_string(groups.size()) + ":  ";
  for (size_t i = 0; i < text.size(); ++i) {
    const Bytes& s = text[i];
    if (s.find("  Correct! (") != Bytes::npos) results.push_back(s.substr(s.find("  Correct! (")));
    if (s.find("  Incorrect (") != Bytes::npos) results.push_back(s.substr(s.find("  Incorrect (")));
    if (s.rfind("Final score: ", 0) == 0) score = s;
    const size_t p = s.find(total);
    if (p == Bytes::npos) continue;
    Shown x{static_cast<unsigned>(s[p - 1] - '1'), {}};
    ksym_assert(s.substr(0, p - 1) == (quiz ? "Question " : ""), "a question starts with its number");
    ksym_assert(x.pos < groups.size() && s.find("[" + Bytes{x.pos ? "乙" : "甲"} + "], " + std::to_string(groups[x.pos].size()) + " members", p) != Bytes::npos, "a question is about its group");
    for (unsigned k = 0; k < groups[x.pos].size(); ++k) {
      const Bytes& r = text.at(i + 1 + k);
      const Bytes no = std::to_string(k + 1) + ":  ";
      const size_t b = r.find(no), key = r.find(quiz ? ":  " : " :  ", b + no.size());
      ksym_assert(b != Bytes::npos && key != Bytes::npos, "every member is shown");
      const size_t m = r.find(" : ", key + 3);
      const size_t arrow = r.find("->");
      Row row;
      row.name = r.substr(b + no.size(), 3); // without the suffix for its type
      row.key = quiz ? Bytes{r[key - 1]} : Bytes{};
      row.reading = trim(part(r, key + (quiz ? 3 : 4), m == Bytes::npos ? r.size() : m));
      row.meaning = m == Bytes::npos ? Bytes{} : r.substr(m + 3);
      if (arrow != Bytes::npos) row.given = trim(r.substr(arrow - 2, 2));
      x.rows.push_back(row);
    }
    shown.push_back(x);
  }
  // what has to be
  at = 0;
  unsigned pos = 0, right = 0, skipped = 0;
  size_t k = 0;
  Bytes mistakes;
  std::vector<Bytes> want;
  bool show = meanings, stop = false;
  while (!stop && pos < groups.size()) {
    const auto& g = groups[pos];
    const unsigned n = static_cast<unsigned>(g.size());
    std::vector<int> who(n, -1), what(n, -1); // members and the ones whose readings are at each key
    std::vector<unsigned> given; // keys that were chosen
    Bytes free;
    for (unsigned i = 0; i < n && quiz; ++i) free += keyOf(i);
    for (bool done = false, again = false; !done;) {
      ksym_assert(k < shown.size() && shown[k].pos == pos, "the question is asked");
      const auto& rows = shown[k++].rows;
      for (unsigned i = 0; i < n; ++i) {
        const Row& r = rows[i];
        if (quiz) ksym_assert(r.key == Bytes{keyOf(i)}, "every member has a key of its own");
        if (!again) {
          for (unsigned j = 0; j < n; ++j) {
            if (r.name == g[j].name) who[i] = static_cast<int>(j);
            if (r.reading == g[j].reading && (!show || r.meaning == g[j].meaning)) what[i] = static_cast<int>(j);
          }
          ksym_assert(who[i] >= 0 && what[i] >= 0, "members are shown with readings of members");
          if (!quiz) ksym_assert(r.name == g[i].name && r.reading == g[i].reading, "a review shows the reading of each member");
        } else
          ksym_assert(r.name == g[static_cast<size_t>(who[i])].name && r.reading == g[static_cast<size_t>(what[i])].reading, "the order stays while a group is answered");
        ksym_assert(r.meaning.empty() != show, "meanings are shown as chosen");
        Bytes w;
        for (unsigned j = 0; j < given.size(); ++j)
          if (given[j] == i) w = std::to_string(j + 1);
        ksym_assert(r.given == w, "the answers given are shown");
      }
      if (!again) {
        // every member once, and every reading as often as members have it
        for (unsigned i = 0; i < n; ++i) {
          for (unsigned j = 0; j < i; ++j) ksym_assert(who[i] != who[j], "every member is shown once");
          unsigned a = 0, b = 0;
          for (unsigned j = 0; j < n; ++j) {
            a += g[j].reading == g[i].reading;
            b += rows[j].reading == g[i].reading;
          }
          ksym_assert(a == b, "every reading is offered once for each member that has it");
        }
      }
      // up to the next time that the group is shown
      for (bool shownAgain = false; !shownAgain && !done;) {
        Bytes keys = "/.-" + free;
        if (!given.empty()) keys += "*'";
        if (!quiz && pos) keys += ',';
        const char c = next(keys);
        if (c == '/') stop = done = true;
        else if (c == '.') ++skipped, ++pos, done = true;
        else if (c == ',') --pos, done = true;
        else if (c == '-') show = !show, shownAgain = true;
        else if (c == '\'') shownAgain = true;
        else if (c == '*') {
          unsigned e = 0;
          if (given.size() > 1) {
            Bytes used;
            for (auto i : given) used += keyOf(i);
            e = static_cast<unsigned>(used.find(next(used)));
          }
          free += keyOf(given[e]);
          const char d = next(free, true);
          if (d) given[e] = static_cast<unsigned>(d >= 'a' ? d - 'a' : d - 'A' + 26);
          free.erase(free.find(keyOf(given[e])), 1);
          ksym_reach("edited");
        } else {
          given.push_back(static_cast<unsigned>(c >= 'a' ? c - 'a' : c - 'A' + 26));
          free.erase(free.find(c), 1);
        }
        if (quiz && given.size() == n) {
          unsigned good = 0;
          for (unsigned i = 0; i < n; ++i) {
            const Attr &a = g[static_cast<size_t>(who[i])], &b = g[static_cast<size_t>(what[given[i]])];
            if (a.reading == rows[given[i]].reading && (!show || a.meaning == b.meaning)) ++good;
          }
          if (good == n) want.push_back("  Correct! (" + std::to_string(++right) + '/' + std::to_string(pos + 1) + ')');
          else {
            want.push_back("  Incorrect (got " + std::to_string(good) + " right out of " + std::to_string(n) + ')');
            mistakes += pos ? " 乙" : " 甲";
          }
          ++pos;
          done = true;
        }
      }
      again = true;
    }
  }
  ksym_assert(k == shown.size(), "no other questions are asked");
  ksym_assert(want == results, "an answer counts exactly when its reading is the member's");
  if (!quiz) {
    ksym_assert(score.empty(), "a review has no score");
    return;
  }
  Bytes w = "Final score: " + std::to_string(right) + '/' + std::to_string(pos);
  if (skipped) w += ", skipped: " + std::to_string(skipped);
  if (!mistakes.empty()) w += " - mistakes:" + mistakes;
  else if (!skipped && pos) w += " - Perfect!";
  ksym_assert(score == w, "the final score accounts for every group");
}
}
extern "C" unsigned ksym_draw() { return (seed + ++count) * 0x9e3779b1U; }
extern "C" void ksym_setup() {
  for (unsigned i = 0; i < 5; ++i)
    for (unsigned j = 0; j < 3; ++j)
      for (unsigned k = 0; k < 3; ++k) pool[i][j][k] = keep({Names[i], Readings[j], Meanings[k]});
  for (unsigned i = 0; i < Big; ++i) {
    const Bytes name{'\xe4', static_cast<char>(0xb8 + i / 32), static_cast<char>(0x80 + i % 32)};
    const Bytes reading = Bytes(1, static_cast<char>('a' + i / 10)) + static_cast<char>('0' + i % 10);
    many[i] = keep({name, reading, "x"});
  }
  const auto d = putFiles();
  setup(std::make_shared<Data>(d), d);
}
extern "C" void ksym_main() {
  count = 0;
  lines.clear();
  GroupData::List list;
  std::vector<std::vector<Attr>> groups;
#ifdef BIG
  // keys of big groups
  seed = ksym_choose(2, "seed");
  const unsigned sizes[]{25, 26, 27, 58, 57, 40}, n = sizes[ksym_choose(TIER ? 6 : 4, "members")];
  KanjiData::List l(many, many + n);
  list.push_back(std::make_shared<MeaningGroup>(1, "甲", l));
  groups.emplace_back();
  for (auto& i : l) groups[0].push_back(static_cast<const K&>(*i)._a);
  const auto any = [] {
    Line x{sym<char>("key")};
    ksym_assume(x.c > 0 && x.c != '\n' && x.c != '/' && x.c != '.' && x.c != '-');
    lines.push_back(x);
  };
  const unsigned kind = ksym_choose(2, "edit");
  if (!kind) any(); // any key first and then all others in order
  for (unsigned i = 0; i + kind < n; ++i) lines.push_back({keyOf(i)});
  if (kind) { // all but the last, any of these edited to any other
    lines.push_back({'*'});
    any();
    for (unsigned i = 0; i < n; ++i) lines.push_back({keyOf(i)}); // an entry if it was none, then a new key
    lines.push_back({0, true});
    lines.push_back({'\''});
    for (unsigned i = 0; i < n; ++i) lines.push_back({keyOf(i)});
  }
  lines.push_back({'/'});
  check(list, groups, true, false, n);
  return;
#else
  const bool quiz = ksym_choose(2, "quiz"), two = ksym_choose(2, "two groups");
  const unsigned n = !quiz || two ? 2 : 2 + ksym_choose(2, "members");
  const bool meanings = (two || n == 3) && !TIER ? quiz : ksym_choose(2, "meanings");
  seed = quiz ? ksym_choose(n == 3 && TIER ? 4 : 2, "seed") : 0;
  // every way to share readings (and meanings of the same reading)
  unsigned used = 0, usedMeanings = 0;
  KanjiData::List l;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned r = ksym_choose(used + 1, "reading"), m = meanings ? ksym_choose(usedMeanings + 1, "meaning") : 0;
    if (r == used) ++used;
    if (m == usedMeanings) ++usedMeanings;
    if (two) ksym_assume(r == i);
    if (n == 3) ksym_assume(m == (i + 1) / 2 * meanings); // of three the last two have the same
    l.push_back(pool[i][r][m]);
  }
  list.push_back(std::make_shared<MeaningGroup>(1, "甲", l));
  if (two) list.push_back(std::make_shared<MeaningGroup>(2, "乙", KanjiData::List{pool[3][0][0], pool[4][1][1]}));
  for (auto& g : list) {
    groups.emplace_back();
    for (auto& i : g->members()) groups.back().push_back(static_cast<const K&>(*i)._a);
  }
  const unsigned typedLines = TIER ? 4 : 3;
  if (quiz) { // start with some answers
    static const char* const Starts[2][3]{{"", "b", "a"}, {"", "ca", "ab"}};
    for (const char* p = Starts[n == 3][ksym_choose(TIER ? 3 : 2, "start")]; *p; ++p) lines.push_back({*p});
  }
  for (unsigned i = 0; i < typedLines; ++i) {
    Line x{sym<char>("key")};
    ksym_assume(x.c != 0);
    if (ksym_concretize(x.c == '\n')) x = {0, true};
    lines.push_back(x);
  }
  // leave any prompt, then quit
  for (unsigned i = 0; i < n; ++i) lines.push_back({keyOf(i)});
  lines.push_back({0, true});
  lines.push_back({'/'});
  check(list, groups, quiz, meanings, n);
#endif
}
