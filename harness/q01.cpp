// Q01: options of the quiz
#include "quizrun.h"
#include <kt_utils/UnicodeBlock.h>
using namespace quizref;

namespace {
unsigned seed, drawn;
constexpr unsigned Each = 3; // kanji in each list
// kanji j of the i-th entry of all lists
Bytes nameOf(unsigned i, unsigned j) { return {'\xe4', static_cast<char>(0xb8 + i / 4), static_cast<char>(0x80 + i % 4 * 8 + j)}; }
const Bytes Details{" --- Not found in 'ucd.txt'"};

bool is(const Bytes& s, size_t i, char c) { return ksym_concretize(s[i] == c); }
bool in(const Bytes& s, size_t i, char a, char b) { return ksym_concretize(s[i] >= a && s[i] <= b); }
bool digits(const Bytes& s, size_t i) {
  bool all = i < s.size();
  for (; i < s.size(); ++i) all = all && in(s, i, '0', '9');
  return all;
}
uint64_t number(const Bytes& s, size_t i) {
  uint64_t r = 0;
  for (; i < s.size(); ++i) r = r * 10 + static_cast<unsigned>(s[i] - '0');
  return r;
}
struct Want {
  enum { Nothing, Start, Help, Arg } what{Nothing};
  bool error{}, meanings{};
  char mode{}, order{}, type{}, list{};
  uint64_t question{};
  Bytes arg;
};
// what a list of arguments means
Want parse(const std::vector<Bytes>& args) {
  Want w;
  bool end = false;
  for (auto& s : args) {
    if (end || s.size() < 2 || !is(s, 0, '-')) {
      w.what = Want::Arg;
      w.arg = s;
      return w;
    }
    const bool two = s.size() == 2;
    if (two && is(s, 1, 'h')) {
      w.what = Want::Help;
      return w;
    }
    if (two && is(s, 1, '-')) end = true;
    else if (two && is(s, 1, 's')) w.meanings = true;
    else if (is(s, 1, 'r') || is(s, 1, 't')) {
      if (w.mode) w.error = true;
      w.mode = is(s, 1, 'r') ? 'r' : 't';
      if (two) w.question = 0;
      else if (s.size() == 3 && is(s, 2, '0')) w.order = 'r', w.question = 0;
      else {
        const bool minus = is(s, 2, '-');
        const size_t i = minus || is(s, 2, '+') ? 3 : 2;
        w.order = minus ? 'e' : 'b';
        if (!digits(s, i)) w.error = true;
        else if (ksym_concretize(number(s, i) > 65535)) w.error = true;
        else w.question = number(s, i);
      }
    } else {
      static const char* const Types[]{"f0123456789", "g123456s", "k123456789abc", "l12345", "m1234", "p1234"};
      bool found = false;
      for (auto t : Types)
        if (!found && is(s, 1, t[0])) {
          found = true;
          if (w.type) w.error = true;
          w.type = t[0];
          if (!two) {
            char c = 0;
            for (const char* p = t + 1; *p && s.size() == 3 && !c; ++p)
              if (is(s, 2, *p)) c = *p;
            if (c) w.list = c;
            else w.error = true;
          }
        }
      if (!found) w.error = true;
    }
    if (w.error) return w;
  }
  w.what = w.type ? Want::Start : Want::Nothing;
  return w;
}
void check(const std::vector<Bytes>& args) {
  const Want w = parse(args);
  const bool quiz = w.mode == 't', list = w.type != 'm' && w.type != 'p';
  Bytes typed;
  if (!w.mode) typed += "r\n";
  if (!w.order) typed += "b\n";
  char c = w.list;
  if (w.type && !w.list) {
    c = w.type == 'f' || !list ? '3' : '2';
    typed += Bytes{c} + '\n';
  }
  if (quiz && list) typed += "2\nk\n";
  if (w.type == 'p') typed += "1\n";
  typed += "/\n";
  std::istringstream stream{typed};
  std::vector<const char*> argv{"quiz"};
  for (auto& s : args) argv.push_back(s.c_str());
  sink.str({});
  drawn = 0;
  bool threw = false;
  try {
    const QuizLauncher launcher{{static_cast<int>(argv.size()), argv.data()}, data, groups, jukugo, &stream};
  } catch (const DomainError&) { threw = true; }
  const Bytes out = sink.str();
  const bool started = out.find("Starting ") != Bytes::npos;
  if (w.error) {
    ksym_assert(threw && !started && out.empty(), "wrong options are refused");
    ksym_reach("refused");
    return;
  }
  if (w.what == Want::Arg) return; // see below
  const unsigned total = list ? Each : 1;
  const bool beyond = w.what == Want::Start && ksym_concretize(w.question > total);
  ksym_assert(threw == beyond, "right options are not refused, only a start position outside of the list");
  if (threw) {
    ksym_assert(!started, "a start position outside of the list starts nothing");
    ksym_reach("beyond the list");
    return;
  }
  ksym_assert(started == (w.what == Want::Start), "a quiz starts when a type is given");
  ksym_assert((out.find("kanjiQuiz [-hs]") != Bytes::npos) == (w.what == Want::Help), "help is shown when asked for");
  if (!started) {
#if MODE != 1 // always a type
    if (w.what == Want::Nothing) ksym_assert(out.empty(), "nothing is shown without a type");
#endif
    return;
  }
  ksym_assert(out.find(Bytes{"Starting "} + (quiz ? "quiz" : "review") + " for " + std::to_string(total) + ' ' + (list ? "kanji" : w.type == 'm' ? "Meaning groups" : "Pattern groups")) != Bytes::npos, "the mode and type that were given");
  unsigned pos = 1;
  while (pos < total && ksym_concretize(w.question > pos)) ++pos;
  const Bytes start = (quiz ? "\nQuestion " : "\n") + std::to_string(pos) + '/' + std::to_string(total) + ":  ";
  const size_t at = out.find(start);
  ksym_assert(at != Bytes::npos, "the start position that was given");
  if (at == Bytes::npos) return;
  const size_t b = at + start.size();
  const Bytes line = out.substr(b, out.find('\n', b) - b), rest = out.substr(b);
  if (list) {
    unsigned entry = 0; // of the list
    if (w.type == 'f') entry = static_cast<unsigned>(c - '0');
    else if (w.type == 'g') entry = c == 's' ? 6 : static_cast<unsigned>(c - '1');
    else if (w.type == 'l') entry = static_cast<unsigned>(c - '1');
    else entry = c >= 'a' ? static_cast<unsigned>(c - 'a') + 9 : static_cast<unsigned>(c - '1');
    const unsigned i = w.order == 'e' ? total - pos : pos - 1;
    bool found = false;
    for (unsigned j = 0; j < Each; ++j)
      if ((w.order == 'r' || j == i) && line.rfind(nameOf(entry, j), 0) == 0) found = true;
    ksym_assert(found, "the list and order that were given");
  } else {
    static const char* const Members[]{"showing 2 out of 5 members", "showing 3 out of 5 members", "showing 4 out of 5 members", "5 members"};
    ksym_assert(line == (w.type == 'm' ? Bytes{"[甲], "} : "[Peers " + nameOf(0, 0) + "：ア], ") + Members[c - '1'], "the kind of group members that was given");
  }
  ksym_assert((rest.find("xyzzy") != Bytes::npos) == w.meanings, "meanings are shown if asked for");
  ksym_assert((out.find("Mode (") != Bytes::npos) == !w.mode && (out.find("List order (") != Bytes::npos) == !w.order, "what was given is not asked for");
  ksym_reach("started");
  if (w.order == 'r') ksym_reach("random order");
  if (w.order == 'e' && pos > 1) ksym_reach("from the end");
}
}
extern "C" unsigned ksym_draw() { return (seed + ++drawn) * 0x9e3779b1U; }
extern "C" void ksym_setup() {
  const auto d = putFiles("Number\tName\tMembers\n1\t甲\t" + nameOf(0, 0) + ',' + nameOf(0, 1) + ',' + nameOf(13, 0) + ',' + nameOf(13, 1) + ',' + nameOf(13, 2) + '\n',
    "Number\tName\tMembers\n1\t：ア\t" + nameOf(0, 0) + ',' + nameOf(0, 1) + ',' + nameOf(13, 0) + ',' + nameOf(13, 1) + ',' + nameOf(13, 2) + '\n');
  const auto k = std::make_shared<Data>(d);
  using enum KenteiKyus;
  constexpr KenteiKyus Kyus[]{K1, K2, K3, K4, K5, K6, K7, K8, K9, K10, KJ1, KJ2};
  using G = KanjiGrades;
  constexpr G Grades[]{G::G1, G::G2, G::G3, G::G4, G::G5, G::G6, G::S};
  constexpr JlptLevels Levels[]{JlptLevels::N1, JlptLevels::N2, JlptLevels::N3, JlptLevels::N4, JlptLevels::N5};
  for (unsigned i = 0; i < 12; ++i)
    for (unsigned j = 0; j < Each; ++j) {
      const char* const Readings[]{"い", "に", "さん"};
      Attr a{nameOf(i, j), Readings[j], "xyzzy"};
      if (i < 10) a.freq = static_cast<uint16_t>(250 * i + 1 + j);
      if (i < 7) a.grade = Grades[i];
      if (i < 5) a.level = Levels[i];
      a.kyu = Kyus[i];
      a.morohashi = std::to_string(10 * (i + 1) + (j ? 1 : 0)); // two with the same
      a.nelson = {static_cast<uint16_t>(i + 1)};
      if (!j) a.nelson.push_back(static_cast<uint16_t>(40 + i));
      k->add(a);
    }
  for (unsigned j = 0; j < 3; ++j) {
    Attr a{nameOf(13, j), "い", "xyzzy", KanjiTypes::Ucd};
    if (!j) a.kyu = K3; // neither level nor frequency
    if (j == 1) a.level = JlptLevels::N2;
    if (j == 2) a.freq = 9999;
    const auto p = std::make_shared<K>(a);
    k->insert(p);
  }
  setup(k, d);
}
extern "C" void ksym_main() {
  seed = 0;
#if MODE == 0
  // any option with others before and after
  struct Around { std::vector<Bytes> before, after; };
  static const Around Rounds[]{
    {{}, {}}, {{"-g2"}, {}}, {{}, {"-g2"}}, {{"-r2"}, {}}, {{}, {"-r2"}}, {{"-t-3"}, {"-l3"}},
    {{"-s"}, {"-r1", "-k3"}}, {{"-k", "-r1"}, {}}, {{}, {"-t", "-ks"}}, {{"--"}, {}}, {{}, {"-h"}}, {{"-p4", "-s"}, {"-r0"}}, {{"-t"}, {}}};
  const Around& a = Rounds[ksym_choose(TIER ? 13 : 9, "around")];
  std::vector<Bytes> args{a.before};
  const Bytes text = symString(ksym_choose(TIER ? 4 : 3, "length"), "option");
  args.push_back('-' + text);
  for (auto& s : a.after) args.push_back(s);
  for (size_t i = 0; i < text.size(); ++i) ksym_assume(text[i] != 0);
  check(args);
#elif MODE == 1
  // numbers and lists
  std::vector<Bytes> args;
  static const char* const Starts[]{"-r", "-t", "-r-", "-t-", "-r+"};
  Bytes s{Starts[ksym_choose(TIER ? 5 : 3, "start")]};
  const unsigned n = 1 + ksym_choose(6, "digits");
  for (unsigned i = 0; i < n; ++i) {
    const char c = sym<char>("digit");
    ksym_assume(c >= '0' && c <= '9');
    s += c;
  }
  static const char* const Types[]{"-g2", "-m1", "-f9", "-kc"};
  const Bytes type{Types[ksym_choose(TIER ? 4 : 2, "type")]};
  const bool first = ksym_choose(2, "first");
  args.push_back(first ? s : type);
  args.push_back(first ? type : s);
  check(args);
#elif MODE == 2
  // every type and list
  static const char* const Modes[]{"-r", "-t", "-r2", "-t2", "-r-1", "-t-2", "-t0", ""};
  const Bytes mode{Modes[ksym_choose(8, "mode")]};
  const char type = sym<char>("type"), list = sym<char>("list");
  ksym_assume(type != 0 && type != 'r' && type != 't' && list != 0);
  seed = ksym_choose(TIER ? 3 : 1, "seed");
  std::vector<Bytes> args;
  if (!mode.empty()) args.push_back(mode);
  Bytes s{"-"};
  s += type;
  if (!ksym_choose(2, "no list")) s += list;
  args.push_back(s);
  if (ksym_choose(2, "meanings")) args.push_back("-s");
  check(args);
#else
  // kanji
  static const char* const Starts[]{"", "u", "m", "n"};
  const unsigned kind = ksym_choose(4, "start");
  const unsigned n = ksym_choose(kind == 1 ? 7 : TIER ? 5 : 4, "length");
  Bytes s{Starts[kind]};
  for (unsigned i = 0; i < n; ++i) {
    const char c = sym<char>("byte");
    ksym_assume(c != 0);
    // codes have few ranges of letters
    if (kind == 1 && n > 3 && i) ksym_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'g') || (c >= 'A' && c <= 'G'));
    s += c;
  }
  const bool end = ksym_choose(2, "after --");
  if (!end && n && !kind) ksym_assume(s[0] != '-');
  std::vector<Bytes> args;
  if (end) args.push_back("--");
  args.push_back(s);
  if (ksym_choose(2, "another")) args.push_back("-x");
  // what it is
  bool error = true;
  std::vector<Bytes> names; // shown
  bool all = false;
  if (digits(s, 0)) {
    const auto x = number(s, 0);
    for (unsigned i = 0; i < 10; ++i)
      for (unsigned j = 0; j < Each; ++j)
        if (error && ksym_concretize(x == 250 * i + 1 + j)) error = false, names.push_back(nameOf(i, j));
  } else if (kind == 2 || (n && !kind && is(s, 0, 'm'))) {
    const MorohashiId* id{};
    try {
      id = new MorohashiId{s.substr(1)};
    } catch (const DomainError&) {}
    error = !id;
    all = true;
    for (unsigned i = 0; i < 12 && id; ++i)
      for (unsigned j = 0; j < Each; ++j)
        if (ksym_concretize(*id == MorohashiId{std::to_string(10 * (i + 1) + (j ? 1 : 0))})) names.push_back(nameOf(i, j));
  } else if (kind == 3 || (n && !kind && is(s, 0, 'n'))) {
    error = !digits(s, 1) || ksym_concretize(number(s, 1) > 65535);
    all = true;
    for (unsigned i = 0; i < 12 && !error; ++i) {
      if (ksym_concretize(number(s, 1) == i + 1))
        for (unsigned j = 0; j < Each; ++j) names.push_back(nameOf(i, j));
      if (ksym_concretize(number(s, 1) == 40 + i)) names.push_back(nameOf(i, 0));
    }
  } else if (kind == 1 || (n && !kind && is(s, 0, 'u'))) {
    error = s.size() < 5 || s.size() > 6 || (s.size() == 6 && !in(s, 1, '1', '2'));
    Code x = 0;
    for (size_t i = 1; i < s.size() && !error; ++i) {
      unsigned d = 0;
      if (in(s, i, '0', '9')) d = static_cast<unsigned>(s[i] - '0');
      else if (in(s, i, 'a', 'f')) d = static_cast<unsigned>(s[i] - 'a') + 10;
      else if (in(s, i, 'A', 'F')) d = static_cast<unsigned>(s[i] - 'A') + 10;
      else error = true;
      x = x * 16 + d;
    }
    if (!error) {
      ksym_assume(x != 0 && x != '\n'); // lines are looked at
      const bool bad = ksym_concretize(x >= 0xd800) && ksym_concretize(x < 0xe000);
      names.push_back(bad ? Bytes{"\xef\xbf\xbd"} : encode(x));
    }
  } else if (n && ksym_concretize(isKanji(s))) {
    error = false;
    names.push_back(s);
  }
  std::istringstream stream{"/\n"};
  std::vector<const char*> argv{"quiz"};
  for (auto& i : args) argv.push_back(i.c_str());
  sink.str({});
  bool threw = false;
  try {
    const QuizLauncher launcher{{static_cast<int>(argv.size()), argv.data()}, data, groups, jukugo, &stream};
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == error, "exactly the kanji that can be given are accepted");
  const Bytes out = sink.str();
  if (threw) {
    ksym_assert(out.empty(), "nothing is shown for a wrong kanji");
    ksym_reach("refused");
    return;
  }
  const auto lines = split(out);
  std::vector<Bytes> shown;
  for (auto& l : lines) {
    const size_t p = l.find(" [");
    const size_t q = l.find(Details);
    if (p != Bytes::npos && q != Bytes::npos) shown.push_back(l.substr(0, p));
  }
  bool good = shown.size() == names.size();
  for (size_t i = 0; good && i < names.size(); ++i) good = same(shown[i], names[i]);
  ksym_assert(good, "details of exactly the kanji asked for");
  ksym_assert(out.find("Starting") == Bytes::npos, "no quiz starts");
  if (all && names.size() != 1) ksym_assert(out.find("Found " + std::to_string(names.size()) + " matches") != Bytes::npos, "the number of kanji found is shown");
  if (names.size() > 1) ksym_reach("several");
  if (!names.empty() && kind == 1) ksym_reach("code");
#endif
}
