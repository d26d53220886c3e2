// Q03: score and position of list quizzes
#include "quizrun.h"
using namespace quizref;

namespace {
constexpr unsigned Max = 3;
KanjiPtr pool[Max + 1];
const char* const Names[]{"一", "二", "三"};
const char* const Readings[]{"い", "に", "さん"};
const char* const Meanings[]{"one", "two", "three"};
unsigned count, seed;
}
extern "C" unsigned ksym_draw() { return (seed + ++count) * 0x9e3779b1U; }
extern "C" void ksym_setup() {
  for (unsigned i = 0; i < Max; ++i) pool[i] = keep({Names[i], Readings[i], Meanings[i]});
  pool[Max] = keep({"四", ""});
  const auto d = putFiles();
  setup(std::make_shared<Data>(d), d);
}
extern "C" void ksym_main() {
  sink.str({});
  const bool quiz = ksym_choose(2, "quiz");
  const unsigned n = quiz ? 2 + ksym_choose(Max - 1, "kanji") : 1 + ksym_choose(Max, "kanji");
  const unsigned order = ksym_choose(3, "order"); // beginning, end, random
  const bool meanings = ksym_choose(2, "meanings");
  const auto style = n == 2 && !meanings ? ListQuiz::QuizStyle::ReadingToKanji : ListQuiz::QuizStyle::KanjiToReading;
  const auto start = sym<uint16_t>("start");
  if (order) ksym_assume(start == 0);
  constexpr unsigned Lines = TIER ? 4 : 3;
  char key[Lines + 1];
  Bytes typed;
  for (unsigned i = 0; i < Lines; ++i) {
    key[i] = sym<char>("key");
    ksym_assume(key[i] != '\n' && key[i] != 0);
    typed += key[i];
    typed += '\n';
  }
  key[Lines] = '/';
  typed += "/\n";
  seed = order == 2 ? ksym_choose(3, "seed") : 0;
  count = 0;
  std::istringstream in{typed};
  static const char* const Args[2][3]{{"-r1", "-r-1", "-r0"}, {"-t1", "-t-1", "-t0"}};
  const char* argv[]{"quiz", Args[quiz][order]};
  const QuizLauncher launcher{{2, argv}, data, groups, jukugo, &in};
  KanjiData::List list{pool, pool + n};
  const bool noReading = !order && !meanings && ksym_choose(2, "no reading");
  if (noReading) list[n - 1] = pool[Max];
  bool threw = false;
  const unsigned choices = quiz ? 2 : 1;
  try {
    const ListQuiz q{launcher, start, meanings, list, Kanji::Info::Grade, static_cast<uint16_t>(choices), style};
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == (noReading || ksym_concretize(start > n)), "a start position outside of the list is refused");
  if (threw) return;
  const auto lines = split(sink.str());
  // what is shown, question by question
  struct Shown { unsigned pos; int kanji; bool meaning; unsigned right; };
  std::vector<Shown> shown;
  std::vector<Bytes> results; // lines that say what was right
  Bytes score;
  const Bytes total = '/' + std::to_string(n) + ":  ";
  for (size_t i = 0; i < lines.size(); ++i) {
    const Bytes& s = lines[i];
    if (s.find("  Correct! (") != Bytes::npos) results.push_back(s.substr(s.find("  Correct! (")));
    if (s.find("  Incorrect (") != Bytes::npos) results.push_back(s.substr(s.find("  Incorrect (")));
    if (s.rfind("Final score: ", 0) == 0) score = s;
    const size_t p = s.find(total);
    if (p == Bytes::npos) continue;
    Shown x{static_cast<unsigned>(s[p - 1] - '1'), -1, false, 99};
    ksym_assert(s.substr(0, p - 1) == (quiz ? "Question " : ""), "a question starts with its number");
    for (unsigned k = 0; k < n; ++k) {
      if (s.find(style == ListQuiz::QuizStyle::KanjiToReading ? Names[k] : Readings[k], p) != Bytes::npos) x.kanji = static_cast<int>(k);
      if (s.find(Meanings[k], p) != Bytes::npos || lines[i + 1] == Bytes{"    Meaning: "} + Meanings[k]) {
        x.meaning = true;
        ksym_assert(x.kanji == static_cast<int>(k), "the meaning is of the kanji");
      }
    }
    ksym_assert(x.kanji >= 0, "a question is about a kanji of the list");
    if (quiz)
      for (unsigned k = 0; k < choices; ++k) {
        const Bytes start2 = "    " + std::to_string(k + 1) + ".  ";
        if (lines[i + 1 + k] == start2 + (style == ListQuiz::QuizStyle::KanjiToReading ? Readings : Names)[x.kanji]) x.right = k;
      }
    shown.push_back(x);
  }
  // what has to be
  unsigned pos = ksym_concretize(start == 0) ? 0U : ksym_concretize(start == 1) ? 0U : ksym_concretize(start == 2) ? 1U : 2U;
  int at[Max]; // the kanji at each position
  for (unsigned i = 0; i < n; ++i) at[i] = order == 0 ? static_cast<int>(i) : order == 1 ? static_cast<int>(n - 1 - i) : -1;
  unsigned right = 0, skipped = pos, line = 0;
  Bytes mistakes;
  std::vector<Bytes> want;
  bool show = meanings, stop = false;
  size_t k = 0;
  while (!stop && pos < n) {
    ksym_assert(k < shown.size(), "every question is asked");
    const Shown& x = shown[k++];
    ksym_assert(x.pos == pos, "questions follow each other");
    if (at[pos] < 0) at[pos] = x.kanji;
    ksym_assert(x.kanji == at[pos], "a question keeps its kanji");
    ksym_assert(x.meaning == show, "meanings are shown as chosen");
    if (quiz) ksym_assert(x.right < choices, "the answer is offered");
    for (;; ++line) { // up to the first key that is offered
      const char c = key[line];
      if (ksym_concretize(c == '/')) stop = true;
      else if (ksym_concretize(c == '-')) show = !show;
      else if (ksym_concretize(c == '.')) ++skipped, ++pos;
      else if (quiz && ksym_concretize(c >= '1' && c < static_cast<char>('1' + choices))) {
        if (ksym_concretize(c == static_cast<char>('1' + x.right))) {
          want.push_back("  Correct! (" + std::to_string(++right) + '/' + std::to_string(pos + 1) + ')');
        } else {
          want.push_back("  Incorrect (correct answer is " + std::to_string(x.right + 1) + ')');
          mistakes += Bytes{" "} + Names[x.kanji];
        }
        ++pos;
      } else if (!quiz && pos && ksym_concretize(c == ',')) --pos;
      else continue;
      ++line;
      break;
    }
  }
  ksym_assert(k == shown.size(), "no other questions are asked");
  if (order == 2 && pos == n)
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) ksym_assert(at[i] != at[j], "random order asks every kanji once");
  ksym_assert(want == results, "every answer is judged");
  if (!quiz) {
    ksym_assert(score.empty(), "a review has no score");
    return;
  }
  Bytes w = "Final score: " + std::to_string(right) + '/' + std::to_string(pos);
  if (skipped) w += ", skipped: " + std::to_string(skipped);
  if (!mistakes.empty()) w += " - mistakes:" + mistakes;
  else if (!skipped && pos) w += " - Perfect!";
  ksym_assert(score == w, "the final score accounts for every question");
  if (right && !mistakes.empty() && skipped) ksym_reach("right, wrong and skipped");
}
