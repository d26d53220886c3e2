// K10: the kana conversion program
#include "kanaref.h"
#include <kt_kana/KanaConvert.h>
#include <kt_kana/Table.h>
#include <kt_utils/Exception.h>
#include <algorithm>
#include <iostream>
#include <optional>
#include <sstream>
using namespace kanji_tools;

int ksymTty = 0;

namespace {
const CharType Types[]{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
const char* Names[]{"Hiragana", "Katakana", "Romaji"};
const char TypeKeys[]{"hkrHKR"}, FlagKeys[]{"hknr"};
const char Targets[]{R"(
  -k: set conversion output to Katakana
  -r: set conversion output to Rōmaji
  -H: restrict conversion input to Hiragana
  -K: restrict conversion input to Katakana
  -R: restrict conversion input to Rōmaji
)"};
const char Usage[]{R"(usage: kanaConvert -i
       kanaConvert [-n] string ...
       kanaConvert -m|-p|-?
  -i: interactive mode
  -n: suppress newline on output (for non-interactive mode)
  -m: print Kana chart in 'Markdown' format and exit
  -p: print Kana chart aligned for terminal output and exit
  -?: prints this usage message
  --: finish options, subsequent args are treated as strings to convert
  string ...: one or more strings to convert, no strings means read stdin
  
options for setting conversion source and target types as well as conversion
related flags can also be specified:
  -f opt: set 'opt' (can use multiple times to combine options). Options are:
    h: conform Rōmaji output more closely to 'Modern Hepburn' style
    k: conform Rōmaji output more closely to 'Kunrei Shiki' style
    n: no prolonged marks (repeat vowels instead of 'ー' for Hiragana output)
    r: remove spaces on output (only applies to Hiragana and Katakana output)
  -h: set conversion output to Hiragana (default))"};

struct State { // of the program
  int source = -1, target = 0;
  unsigned flags = 0;
  int mode = 0; // 'i', 'm', 'n' or 'p'
  // an option for the types: false if it isn't one
  bool type(const Bytes& s) {
    if (s.size() != 2 || !ksym_concretize(s[0] == '-')) return false;
    for (int i = 0; i < 6; ++i)
      if (ksym_concretize(s[1] == TypeKeys[i])) {
        (i < 3 ? target : source) = i % 3;
        return true;
      }
    return false;
  }
  bool flag(const Bytes& s) {
    if (s.size() != 1) return false;
    for (int i = 0; i < 4; ++i)
      if (ksym_concretize(s[0] == FlagKeys[i])) return flags |= 1u << i, true;
    return false;
  }
  Bytes convert(const Bytes& s) const {
    const Converter c{Types[target], static_cast<ConvertFlags>(flags)};
    return source < 0 ? c.convert(s) : c.convert(Types[source], s);
  }
  Bytes options() const {
    static const char* flagNames[]{"Hepburn", "Kunrei", "NoProlongMark", "RemoveSpaces"};
    Bytes r = ">>> current options: source=", f;
    r += source < 0 ? "any" : Names[source];
    r += ", target=";
    r += Names[target];
    for (int i = 0; i < 4; ++i)
      if (flags >> i & 1) f += (f.empty() ? "" : "|"), f += flagNames[i];
    return r + ", flags=" + (f.empty() ? "None" : f) +
           "\n>>> enter string (c=clear flags, f=set flag, q=quit, h=help, -k|-h|-r|-K|-H|-R):\n";
  }
};
#if MODE == 2
Bytes hex(uint32_t c) {
  Bytes r;
  for (int i = 3; i >= 0; --i) r += "0123456789ABCDEF"[c >> (4 * i) & 15];
  return r;
}
// the chart made from the table of kana
Bytes chart(bool md) {
  std::ostringstream o;
  o << (md ? "**Notes:**\n" : ">>> Notes:") << R"(
- Column names use some abbreviations: 'Roma' = Rōmaji, 'Hira' = Hiragana,
  'Kata' = Katakana, 'Uni' = Unicode, 'Hepb' = Hepburn, 'Kunr' = Kunrei
- 'Roma' is mainly 'Modern Hepburn', but can be 'Nihon Shiki' or 'Wāpuro'
- 'Hepb' and 'Kunr' are only populated when they would produce different output
  - Values in () means 'output-only' since inputting leads to a different Kana
- 'Roma Variants' are alternative key combinations that lead to the same Kana
- When populated, 'Roma', 'Hira' and 'Kata' columns are unique (no duplicates)
- Unicode values are only shown for 'monograph' (single-symbol) entries
- Some 'digraphs' may not be in any 'official words', but are supported by IMEs
- Chart output is sorted by Hiragana, so 'a, ka, sa, ta, na, ...' ordering
- Katakana 'dakuten w' (ヷ, ヸ, ヹ, ヺ) aren't supported (no conversions exist)
- Type values: P=Plain Kana, D=Dakuten (濁点), H=HanDakuten (半濁点), N=None
- Type 'N' includes:
  - Middle Dot/Interpunct (・): maps to Rōmaji '/' to match IME keyboard entry
  - Prolong Mark (ー): convert to/from macrons (ā, ī, ū, ē, ō)
  - Repeat symbols (ゝ, ゞ, ヽ, ヾ): only supported when 'target' is Rōmaji
)" << (md ? "\n" : "");
  std::vector<int> order;
  for (int i = 0; i < KN; ++i) { // insertion by the Hiragana
    size_t p = order.size();
    while (p && (KT[order[p - 1]].a > KT[i].a || (KT[order[p - 1]].a == KT[i].a && KT[order[p - 1]].b > KT[i].b))) --p;
    order.insert(order.begin() + static_cast<long>(p), i);
  }
  Table t{{"No.", "Type", "Roma", "Hira", "Kata", "HUni", "KUni", "Hepb", "Kunr", "Roma Variants"}, true};
  unsigned count[2][4]{}, variants = 0; // small, voiced, semi-voiced, plain
  for (int i : order) {
    const auto& k = KT[i];
    // a kana is voiced if its first part is
    const int first = k.b ? kfind(k.a) : i, plain = KT[first].p;
    const bool small = k.r[0] == 'l', d = plain >= 0 && KT[plain].d == first, s = plain >= 0 && KT[plain].s == first;
    ++count[k.b != 0][small ? 0 : d ? 1 : s ? 2 : 3];
    Bytes vars, hep, kun;
    for (auto* v : k.var)
      if (*v) vars += (vars.empty() ? "" : ", "), vars += v, ++variants;
    if (*k.hep) hep = Bytes{"("} + k.hep + ')';
    if (k.kv) kun = k.var[0];
    else if (*k.kun) kun = Bytes{"("} + k.kun + ')';
    const Bytes r = k.r;
    bool section = false; // the first of each row of the syllabary
    for (auto* g : {"la", "ka", "sa", "ta", "na", "ha", "ma", "lya", "ra", "lwa"}) section |= r == g;
    t.add({d ? "D" : s ? "H" : "P", r, kcode(k.a, Hira) + kcode(k.b, Hira), kcode(k.a, Kata) + kcode(k.b, Kata),
              k.b ? "" : hex(k.a), k.b ? "" : hex(k.a + 0x60u), hep, kun, vars},
        section);
  }
  t.add({"N", "/", "", "・", "", "30FB"}, true);
  t.add({"N", "", "", "ー", "", "30FC"});
  t.add({"N", "", "ゝ", "ヽ", "309D", "30FD"});
  t.add({"N", "", "ゞ", "ヾ", "309E", "30FE"});
  md ? t.printMarkdown(o) : t.print(o);
  const auto num = [md](unsigned n) {
    const Bytes s = std::to_string(n);
    return md || s.size() > 2 ? s : Bytes(3 - s.size(), ' ') + s;
  };
  const auto name = [md](const char* s) {
    const Bytes n = s;
    return md ? "- **" + n + ":** " : Bytes(10 - n.size(), ' ') + n + ": ";
  };
  unsigned sum[3]{}, all[4]{};
  o << '\n' << (md ? "**Totals:**\n" : ">>> Totals:") << '\n';
  for (int m = 0; m < 2; ++m) {
    auto* c = count[m];
    for (int i = 0; i < 4; ++i) sum[m] += c[i], sum[2] += c[i], all[i] += c[i];
    o << name(m ? "Digraphs" : "Monographs") << num(sum[m]) << " (Plain=" << c[3] << ", Dakuten=" << c[1] << ", HanDakuten=" << c[2];
    if (c[0]) o << ", Small=" << c[0];
    o << ")\n";
  }
  o << name("All Kana") << num(sum[2]) << " (Monographs=" << sum[0] << ", Digraphs=" << sum[1] << "), Rōmaji Variants=" << variants << '\n';
  o << name("Types") << num(sum[2] + 4) << " (P=" << all[0] + all[3] << ", D=" << all[1] << ", H=" << all[2]
    << ", N=4), N types aren't included in 'All Kana'\n";
  return o.str();
}
#endif
struct Result { Bytes out, error; bool failed; };
Result run(const std::vector<Bytes>& args, std::istream* in) {
  std::vector<const char*> argv{"kanaConvert"};
  for (auto& i : args) argv.push_back(i.c_str());
  std::ostringstream o;
  Result r{};
  try {
    const Args a{static_cast<uint16_t>(argv.size()), argv.data()};
    const KanaConvert c{a, o, in};
  } catch (const DomainError& e) {
    r.failed = true;
    r.error = e.what();
  }
  r.out = o.str();
  return r;
}
}
extern "C" void ksym_main() {
#if MODE == 0 // arguments
  constexpr unsigned Max = 4;
  const unsigned n = ksym_choose(Max + 1, "arguments");
  std::vector<Bytes> args;
  static const char* const Fixed[]{"-i", "-m", "-n", "-p", "-?", "--", "-f", "ka", "\xe3\x82\xab", "-f"};
  unsigned any = 0; // at most one arbitrary
  for (unsigned i = 0; i < n; ++i) {
    const unsigned k = i == 3 && !TIER ? 7 : ksym_choose(any < 1 ? 13 : 10, "kind");
    if (k < 10) args.emplace_back(Fixed[k]);
    if (k == 9) args.emplace_back("r");
    if (k < 10) continue;
    ++any;
    // after the end of the options few texts to be converted
    const bool text = std::find(args.begin(), args.end(), "--") != args.end();
    if (k == 10) {
      Bytes s = "-";
      s += symString(1, "option");
      if (text) ksym_assume((s[1] == 'r') | (s[1] == '?') | (s[1] == '-'));
      args.push_back(s);
    } else if (k == 11) {
      args.emplace_back("-f");
      const unsigned len = 1 + ksym_choose(2, "length");
      const Bytes s = symString(len, "flag");
      if (text) ksym_assume((s[0] == 'r') & (s[len - 1] == 'r'));
      args.push_back(s);
    } else {
      const Bytes s = symString(1, "argument");
      ksym_assume((s[0] == '-') | (s[0] == 'a')); // a wrong option or a string
      args.push_back(s);
    }
  }
  const unsigned input = ksym_choose(3, "input"); // given, a pipe, a terminal
  ksymTty = input == 2;
  std::istringstream in{"ka\n\nki\nq\nku\n"};
  if (input) std::cin.rdbuf(in.rdbuf()), std::cin.clear();
  const Result got = run(args, input ? nullptr : &in);
  obs("output", got.out);
  obs("error", got.error);
  // what it has to do
  State s;
  std::vector<Bytes> strings;
  Bytes error;
  bool usage = false;
  for (size_t i = 0; i < args.size() && error.empty() && !usage; ++i) {
    const Bytes& a = args[i];
    const auto is = [&a](const char* t) { return ksym_concretize(same(a, t)); };
    if (is("--")) {
      while (++i < args.size()) strings.push_back(args[i]);
    } else if (is("-?")) usage = true;
    else if (is("-f")) {
      if (++i >= args.size()) error = "-f must be followed by a flag value";
      else if (!s.flag(args[i])) error = "illegal option for -f: " + args[i];
    } else if (is("-i") || is("-m") || is("-n") || is("-p")) {
      if (s.mode) error = "can only specify one of -i, -m, -n, or -p";
      s.mode = ksym_concretize(a[1]);
    } else if (ksym_concretize(a[0] == '-')) {
      if (!s.type(a)) error = "illegal option: " + a;
    } else strings.push_back(a);
  }
  if (error.empty() && !usage) {
    if (!strings.empty()) {
      if (s.mode && s.mode != 'n') error = "'string' args can't be combined with '-i', '-m' or '-p'";
    } else if ((!s.mode || s.mode == 'n') && input != 1) error = "provide one or more 'strings' or '-i' for interactive mode";
  }
  ksym_assert(got.failed == !error.empty(), "wrong arguments are refused and others accepted");
  if (got.failed) {
    ksym_assert(same(got.error, error), "the error says what is wrong");
    ksym_assert(got.out.empty(), "nothing is printed before an error");
    return;
  }
  Bytes want;
  if (usage) want = Bytes{Usage} + Targets;
  else if (!strings.empty()) {
    for (size_t i = 0; i < strings.size(); ++i) {
      if (i && s.target == Roma) want += ' ';
      else if (i && !(s.flags & NoSpaces)) want += encode(0x3000);
      want += s.convert(strings[i]);
    }
    if (s.mode != 'n') want += '\n';
    ksym_reach("strings are converted");
  } else if (s.mode == 'm' || s.mode == 'p') {
    const Bytes h = s.mode == 'm' ? "**Notes:**\n" : ">>> Notes:\n";
    ksym_assert(same(got.out.substr(0, h.size()), h), "the chart is printed");
    return;
  } else if (s.mode == 'i') {
    want = s.options() + s.convert("ka") + '\n' + s.convert("ki") + '\n';
  } else {
    const Bytes end = s.mode == 'n' ? "" : "\n";
    want = s.convert("ka") + end + end + s.convert("ki") + end;
    ksym_reach("input is converted");
  }
  ksym_assert(same(got.out, want), "the output is the converted text");
  if (!usage && strings.empty()) {
    Bytes rest;
    std::getline(in, rest);
    ksym_assert(same(rest, "ku"), "nothing is read after quit");
  }
#elif MODE == 1 // typed lines
  State s;
  std::vector<Bytes> args{"-i"};
  static const char* const Start[]{"", "-r", "-K", "-k"};
  const unsigned st = ksym_choose(TIER ? 4 : 3, "start");
  if (st) args.emplace_back(Start[st]), s.type(Start[st]);
  constexpr unsigned Lines = 3;
  Bytes typed, want = s.options();
  unsigned any = 0; // lines with arbitrary bytes
  for (unsigned i = 0; i < Lines; ++i) {
    const unsigned k = ksym_choose(any < (TIER ? 2 : 1) ? 10 : 7, "line");
    Bytes l;
    const auto text = [&](size_t len) {
      Bytes t = symString(len, "text");
      for (char c : t) ksym_assume(c != '\n');
      return t;
    };
    switch (k) {
    case 0: break;
    case 1: l = "c"; break;
    case 2: l = "h"; break;
    case 3: l = "\xe3\x81\x97\xe3\x83\xbc"; break;
    case 4: l = "kinyou"; break;
    case 5: l = "-x-"; break;
    case 6: l = "f"; break; // with a good answer
    case 7: l = "-"; l += text(1); break;
    case 8: l = text(1); ksym_assume(l[0] != 'q'); break;
    default: l = "f";
    }
    any += k > 6;
    typed += l + '\n';
    if (l.empty()) continue;
    if (k != 3 && k != 4) {
      if (ksym_concretize(same(l, "f"))) {
        const Bytes prompt = ">>> enter flag option (h=Hepburn, k=Kunrei, n=NoProlongMark, r=RemoveSpaces): ";
        want += prompt;
        bool answered = false;
        if (k == 9 && ksym_choose(2, "other")) { // first any answer
          const unsigned len = ksym_choose(3, "length");
          const Bytes answer = text(len);
          typed += answer + '\n';
          answered = s.flag(answer);
          if (!answered) want += prompt;
        }
        if (!answered) typed += "k\n", s.flag("k");
        want += s.options();
        continue;
      }
      if (ksym_concretize(same(l, "c"))) { s.flags = 0; want += s.options(); continue; }
      if (ksym_concretize(same(l, "h"))) { want += Bytes{"  -h: set conversion output to Hiragana"} + Targets + s.options(); continue; }
      if (ksym_concretize(l[0] == '-')) {
        if (!s.type(l)) want += "  illegal option: " + l + '\n';
        want += s.options();
        continue;
      }
    }
    want += s.convert(l) + '\n';
    ksym_reach("a line is converted");
  }
  const bool quit = ksym_choose(2, "quit");
  if (quit) typed += "q\nka\n";
  std::istringstream in{typed};
  const Result got = run(args, &in);
  obs("output", got.out);
  ksym_assert(!got.failed, "lines are no errors");
  ksym_assert(same(got.out, want), "each line is converted or changes the options shown");
  if (quit) {
    Bytes rest;
    std::getline(in, rest);
    ksym_assert(same(rest, "ka"), "nothing is read after quit");
  }
#else // the chart
  const bool md = ksym_choose(2, "markdown");
  std::vector<Bytes> args{md ? "-m" : "-p"};
  if (ksym_choose(2, "option")) {
    Bytes o = "-";
    o += symString(1, "type");
    bool in = false;
    for (int i = 0; i < 6; ++i) in |= o[1] == TypeKeys[i];
    ksym_assume(in);
    args.push_back(o);
    args.emplace_back("-f");
    const Bytes f = symString(1, "flag");
    in = false;
    for (int i = 0; i < 4; ++i) in |= f[0] == FlagKeys[i];
    ksym_assume(in);
    args.push_back(f);
  }
  std::istringstream none;
  const Result got = run(args, &none);
  ksym_assert(!got.failed, "the options don't change the chart");
  ksym_assert(same(got.out, chart(md)), "the chart shows every kana with its spellings and the totals");
#endif
}
