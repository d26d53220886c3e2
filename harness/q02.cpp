// Q02: choices of list quizzes
#include "quizrun.h"
using namespace quizref;

namespace {
constexpr unsigned Max = 5;
KanjiPtr pool[Max][Max]; // kanji i with reading j
const char* const Names[]{"一", "二", "三", "四", "五"};
const char* const Readings[]{"い", "に", "さん", "よん", "ご"};
unsigned left;
}
extern "C" unsigned ksym_draw() {
  if (!left) ksym_assume(false);
  --left;
  return sym<uint32_t>("draw");
}
extern "C" void ksym_setup() {
  for (unsigned i = 0; i < Max; ++i)
    for (unsigned j = 0; j < Max; ++j) pool[i][j] = keep({Names[i], Readings[j]});
  const auto d = putFiles();
  setup(std::make_shared<Data>(d), d);
}
extern "C" void ksym_main() {
  sink.str({});
  const unsigned n = 2 + ksym_choose(TIER ? 4 : 3, "kanji"), c = 2 + ksym_choose(TIER ? 3 : 2, "choices");
  KanjiData::List list;
  std::vector<unsigned> reading;
  unsigned used = 0; // every way in which readings can be shared
  for (unsigned i = 0; i < n; ++i) {
    const unsigned r = ksym_choose(used + 1, "reading");
    if (r == used) ++used;
    reading.push_back(r);
    list.push_back(pool[i][r]);
  }
  ksym_assume(used >= c); // otherwise there is no such question
  const unsigned q = ksym_choose(n, "question");
  // longer lists alternate styles
  const auto style = (n < (TIER ? 5 : 4) ? ksym_choose(2, "style") : q % 2) ? ListQuiz::QuizStyle::ReadingToKanji : ListQuiz::QuizStyle::KanjiToReading;
  const bool toKanji = style == ListQuiz::QuizStyle::ReadingToKanji;
  const bool last = q + 1 == n;
  const char key = last ? sym<char>("key") : '/';
  if (last) ksym_assume(key >= '1' && key < static_cast<char>('1' + c));
  left = c + (TIER ? 2 : n < 4); // draws
  std::istringstream in{Bytes(1, key) + '\n'};
  const char* argv[]{"quiz", "-t1"};
  const QuizLauncher launcher{{2, argv}, data, groups, jukugo, &in};
  { const ListQuiz quiz{launcher, static_cast<uint16_t>(q + 1), false, list, Kanji::Info::Grade, static_cast<uint16_t>(c), style}; }
  const Bytes out = sink.str();
  ksym_assert(out.find("\nQuestion " + std::to_string(q + 1) + '/' + std::to_string(n) + ":  " + (toKanji ? "Reading:  " : "") + (toKanji ? Readings[reading[q]] : Names[q])) != Bytes::npos, "the question is about the kanji at its position");
  int who[4]; // the kanji (or the reading) that each choice shows
  unsigned right = 0, count = 0;
  bool good = true;
  for (unsigned i = 0; i < c; ++i) {
    const Bytes start = "    " + std::to_string(i + 1) + ".  ";
    const size_t p = out.find(start);
    who[i] = -1;
    if (p == Bytes::npos) continue;
    const size_t b = p + start.size();
    const Bytes text = out.substr(b, out.find('\n', b) - b);
    for (unsigned j = 0; j < n; ++j)
      if (text == (toKanji ? Names[j] : Readings[reading[j]])) who[i] = static_cast<int>(reading[j]);
    if (who[i] < 0) good = false;
    if (toKanji ? text == Names[q] : who[i] == static_cast<int>(reading[q])) {
      ++count;
      right = i;
    }
  }
  ksym_assert(good && out.find("    " + std::to_string(c + 1) + ".  ") == Bytes::npos, "the choices are from the list, as many as asked for");
  ksym_assert(count == 1, "exactly one choice is correct");
  for (unsigned i = 0; i < c; ++i)
    for (unsigned j = 0; j < i; ++j) ksym_assert(who[i] != who[j] && who[i] >= 0, "all choices have different readings");
  if (right == 0) ksym_reach("answer first");
  if (right + 1 == c) ksym_reach("answer last");
  if (!last) return;
  const bool correct = out.find("  Correct! (1/" + std::to_string(n) + ')') != Bytes::npos;
  ksym_assert(correct == (key == static_cast<char>('1' + right)), "only the key of the correct choice is counted as correct");
  if (!correct) ksym_assert(out.find("  Incorrect (correct answer is " + std::to_string(right + 1) + ')') != Bytes::npos, "the correct key is shown");
}
