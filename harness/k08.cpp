// K08: prompts
#include "h.h"
#include <kt_kana/Choice.h>
#include <kt_utils/Exception.h>
#include <sstream>
using namespace kanji_tools;

namespace {
bool printable(char c) { return (c >= ' ') & (c <= '~'); }
struct Option { char c; Bytes d; };
// the text of a prompt for options in order
Bytes promptOf(const Bytes& msg, const std::vector<Option>& v, Choice::OptChar def) {
  Bytes r = msg + (msg.empty() ? "(" : " (");
  for (size_t i = 0; i < v.size();) {
    if (i) r += ", ";
    if (!v[i].d.empty()) {
      r += v[i].c;
      r += '=';
      r += v[i++].d;
      continue;
    }
    size_t j = i + 1;
    while (j < v.size() && v[j].d.empty() && ksym_concretize(v[j].c == v[j - 1].c + 1)) ++j;
    r += v[i].c;
    if (j - i > 1) r += '-', r += v[j - 1].c;
    i = j;
  }
  r += ')';
  if (def) r += " def '", r += *def, r += '\'';
  return r + ": ";
}
// sorted insert; false if it is there already
bool put(std::vector<Option>& v, char c, const Bytes& d) {
  size_t i = 0;
  while (i < v.size() && ksym_concretize(v[i].c < c)) ++i;
  if (i < v.size() && ksym_concretize(v[i].c == c)) return false;
  v.insert(v.begin() + static_cast<long>(i), {c, d});
  return true;
}
}
extern "C" void ksym_main() {
  std::vector<Option> all;
  Choice::Choices choices;
  bool bad = false; // an illegal, duplicate or missing option
  const auto option = [&](const char* name, const Bytes& d) {
    const char c = sym<char>(name);
    if (put(all, c, d)) choices.emplace(c, d);
    else ksym_assume(false); // a map has no duplicates
    if (!ksym_concretize(printable(c))) bad = true;
  };
#if MODE == 0
  const unsigned n = ksym_choose(3, "options");
  if (n) option("option", "");
  if (n > 1) option("second", ksym_choose(2, "described") ? "d" : "");
#else
  if (ksym_choose(2, "option")) option("option", "d");
#endif
  Choice::OptChar quit, def;
  const unsigned q = ksym_choose(3, "quit"); // none, set, set but not used
  const unsigned useDef = ksym_choose(2, "default");
  if (q) quit = MODE ? 'q' : sym<char>("quit");
#if MODE == 1
  char first = sym<char>("first"), last = first;
  const unsigned w = ksym_choose(5, "width");
  if (w == 4) {
    last = sym<char>("last"); // anything that must be refused
    if (ksym_concretize(printable(first)) && ksym_concretize(printable(last))) ksym_assume(last < first);
  } else
    last = static_cast<char>(first + static_cast<char>(w));
  bool range = ksym_concretize(printable(first)) && ksym_concretize(printable(last)) && ksym_concretize(first <= last);
  if (!range) bad = true;
  else
    for (unsigned i = 0; i <= w; ++i)
      if (!put(all, static_cast<char>(first + static_cast<char>(i)), {})) bad = true;
#endif
  if (useDef) def = sym<char>("def");
  if (q) {
    if (!MODE && !ksym_concretize(printable(*quit))) bad = true;
    if (q == 1) {
      if (!put(all, *quit, "bye")) bad = true;
    } else
      for (auto& i : all) if (ksym_concretize(i.c == *quit)) bad = true;
  }
  if (all.empty()) bad = true;
  if (def && !bad) {
    bool in = false;
    for (auto& i : all) in = in || ksym_concretize(i.c == *def);
    if (!in) bad = true;
  }
  // typed lines, the last of them ends every prompt
  constexpr unsigned Lines = TIER ? 3 : 2;
  Bytes lines[Lines + 1], typed;
  if (!bad) {
    for (unsigned i = 0; i < Lines; ++i) {
      const unsigned len = ksym_choose(3, "length");
      lines[i] = symString(len, "line", true);
      for (char c : lines[i]) ksym_assume(c != '\n');
    }
    lines[Lines] = Bytes(1, all[0].c);
    for (auto& i : lines) typed += i, typed += '\n';
  }
  std::istringstream in{typed};
  std::ostringstream out;
  const Bytes msg = MODE ? "" : "msg";
  try {
    Choice c{out, &in, quit, "bye"};
#if MODE == 1
    const char r = c.get({first, last}, msg, q != 2, choices, def);
#else
    const char r = c.get(msg, q != 2, choices, def);
#endif
    ksym_assert(!bad, "illegal and duplicate options are refused");
    obs("answer", static_cast<unsigned char>(r));
    unsigned k = 0; // the line that has to be taken
    char want = 0;
    for (;; ++k) {
      if (k > Lines) break;
      if (lines[k].empty()) {
        if (def) { want = *def; break; }
        continue;
      }
      if (lines[k].size() != 1) continue;
      bool in = false;
      for (auto& i : all) in = in || ksym_concretize(i.c == lines[k][0]);
      if (in) { want = lines[k][0]; break; }
    }
    ksym_assert(r == want, "the first line with an offered choice is returned");
    const Bytes prompt = promptOf(msg, all, def);
    Bytes shown;
    for (unsigned i = 0; i <= k; ++i) shown += prompt;
    ksym_assert(same(out.str(), shown), "the prompt shows the choices and is repeated for each other line");
    Bytes rest;
    std::getline(in, rest);
    ksym_assert(k >= Lines || same(rest, lines[k + 1]), "nothing is read past the answer");
    if (k == Lines) ksym_reach("all other lines are refused");
  } catch (const DomainError&) {
    ksym_assert(bad, "legal options are accepted");
  }
}
