// U09: splitting header and rows of a column file
#include "h.h"
#include <kt_utils/ColumnFile.h>
#include <kt_utils/Exception.h>
using namespace kanji_tools;

namespace {
std::vector<Bytes> split(const Bytes& s, char d) { // n delimiters give n + 1 parts
  std::vector<Bytes> r(1);
  for (char c : s)
    if (c == d) r.emplace_back();
    else r.back() += c;
  return r;
}
std::vector<Bytes> lines(const Bytes& s) { // a final newline ends the last line
  auto r = split(s, '\n');
  if (r.back().empty()) r.pop_back();
  return r;
}
const char* const Names[]{"A", "B", "Cc"};
// order of the declared columns passed to the constructor
std::vector<ColumnFile::Column> columns(unsigned n, bool reverse) {
  std::vector<ColumnFile::Column> r;
  for (unsigned i = 0; i < n; ++i) r.emplace_back(Names[reverse ? n - 1 - i : i]);
  return r;
}
std::string path() { return std::string(ksym_dir()) + "/f.txt"; }
// reads all rows and compares them with the text
void rows(ColumnFile& f, const std::vector<Bytes>& header, const std::vector<Bytes>& ls, char d, size_t from) {
  for (size_t i = from; i < ls.size(); ++i) {
    const auto want = split(ls[i], d);
    bool ok = false, threw = false;
    try {
      ok = f.nextRow();
    } catch (const DomainError&) { threw = true; }
    ksym_assert(threw == (want.size() != header.size()), "a row is refused exactly when its column count is wrong");
    if (threw) return;
    ksym_assert(ok, "every line of the file is a row");
    for (size_t k = 0; k < header.size(); ++k) {
      const ColumnFile::Column c{header[k]};
      ksym_assert(same(f.get(c), want[k]), "a column is exactly the text between its delimiters");
      ksym_assert(f.isEmpty(c) == want[k].empty(), "isEmpty");
      obs("value", f.get(c));
    }
    ksym_assert(f.currentRow() == i - from + 1, "rows are numbered from one");
    ksym_reach("row accepted");
  }
  ksym_assert(!f.nextRow(), "no row after the last line");
}
// a fixed correct header in any order, arbitrary rows
void data() {
  static const int Perm[][3]{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const unsigned n = 1 + ksym_choose(3, "columns");
  const unsigned p = n == 3 ? ksym_choose(6, "order") : n == 2 ? 2 * ksym_choose(2, "order") : 0;
  const char d = n == 2 && ksym_choose(2, "delimiter") ? ',' : '\t';
  const Bytes body = symString(ksym_choose((TIER ? 7 : 5) + 1, "length"), "rows", true);
  std::vector<Bytes> header;
  Bytes text;
  for (unsigned i = 0; i < n; ++i) {
    header.emplace_back(Names[Perm[p][i]]);
    if (i) text += d;
    text += header.back();
  }
  text += '\n';
  const auto l = lines(body);
  text += body;
  ksym_write_file(path().c_str(), text.data(), text.size());
  auto cs = columns(n, p & 1);
  const ColumnFile::Column other{"Other"};
  ColumnFile f{path(), cs, d};
  ksym_assert(f.columns() == n, "column count");
  bool threw = false;
  try {
    f.get(cs[0]);
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw, "no value before the first row");
  rows(f, header, l, d, 0);
}
// an arbitrary header line followed by one row of the right size
void headers() {
  const unsigned n = 1 + ksym_choose(3, "columns");
  const Bytes h = symString(ksym_choose((TIER ? 8 : 6) + 1, "length"), "header", true);
  for (char c : h) ksym_assume(c != '\n');
  const bool nl = ksym_choose(2, "newline");
  const auto want = split(h, '\t');
  bool good = want.size() == n && (nl || !h.empty());
  for (unsigned i = 0; i < n && good; ++i) {
    bool found = false;
    for (auto& w : want) found |= w == Names[i];
    good = found;
  }
  Bytes text = h;
  if (nl) {
    text += "\nx";
    for (unsigned i = 1; i < n; ++i) text += "\tx";
    text += '\n';
  }
  ksym_write_file(path().c_str(), text.data(), text.size());
  bool threw = false;
  try {
    ColumnFile f{path(), columns(n, false)};
    if (good && nl) {
      ksym_reach("header accepted");
      rows(f, want, lines(text), '\t', 1);
    }
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !good, "a header is accepted exactly when it has each column once");
}
void declared() { // no columns, repeated columns, missing file, directory
  const Bytes text{"A\tB\n"};
  ksym_write_file(path().c_str(), text.data(), text.size());
  const unsigned k = ksym_choose(5, "kind");
  std::vector<ColumnFile::Column> cs;
  if (k != 0) cs.emplace_back("A"), cs.emplace_back(k == 1 ? "A" : "B");
  bool threw = false;
  try {
    const ColumnFile f{k == 2 ? path() + "x" : k == 3 ? std::string(ksym_dir()) : path(), cs};
    bool t2 = false;
    try { // a column known elsewhere or created later is not part of this file
      f.get(ColumnFile::Column{"Later"});
    } catch (const DomainError&) { t2 = true; }
    ksym_assert(t2, "an undeclared column is refused");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == (k < 4), "bad declarations and files are refused");
}
}
extern "C" void ksym_main() {
  switch (ksym_choose(3, "case")) {
  case 0: data(); break;
  case 1: headers(); break;
  default: declared();
  }
}
