// K09: tables
#include "h.h"
#include <kt_kana/DisplaySize.h>
#include <kt_kana/Table.h>
#include <sstream>
using namespace kanji_tools;

namespace {
using Rows = std::vector<std::vector<Bytes>>;
size_t width(const Bytes& s) { return static_cast<size_t>(ksym_concretize(displaySize(s))); }
Bytes line(const std::vector<size_t>& w, const std::vector<Bytes>* row) {
  Bytes r;
  for (size_t i = 0; i < w.size(); ++i) {
    r += row ? "| " : "+-";
    size_t n = 0;
    if (row && i < row->size()) r += (*row)[i], n = width((*row)[i]);
    r.append(w[i] - n + 1, row ? ' ' : '-');
  }
  return r + (row ? "|\n" : "+\n");
}
// the cells of one line of a Markdown table
std::vector<Bytes> cells(const Bytes& l) {
  std::vector<Bytes> r;
  Bytes cur;
  for (size_t i = 1; i < l.size(); ++i) { // after the first bar
    if (ksym_concretize(l[i] == '|')) r.push_back(cur), cur.clear();
    else if (ksym_concretize(l[i] == '\\') && i + 1 < l.size() && ksym_concretize(l[i + 1] == '|')) cur += l[++i];
    else if (ksym_concretize(l[i] == '\\') && i + 1 < l.size() && ksym_concretize(l[i + 1] == '\\')) cur += l[i], cur += l[++i];
    else cur += l[i];
  }
  return r;
}
// one cell of arbitrary text, all others fixed
Bytes focus() {
  const unsigned q = ksym_choose(TIER ? 5 : 3, "kind"), k = !TIER && q ? q + 1 : q;
  Bytes s;
  if (k == 3 || k == 4) return symChar(k, "char");
  s = symString(k, "text");
  for (char c : s) ksym_assume((c >= ' ') & (c <= '~'));
  return s;
}
const Bytes Fixed[]{"x", "\xe6\xbc\xa2\xe5\xad\x97", "", "long|er", "a b"};
}
extern "C" void ksym_main() {
  const unsigned count = ksym_choose(2, "count"), titles = ksym_choose(3, "titles"), rows = ksym_choose(3, "rows");
  Rows all;
  std::vector<Bytes> title;
  unsigned sections = 0, sizes[2]{}, total = titles;
  for (unsigned i = 0; i < rows; ++i) {
    total += sizes[i] = ksym_choose(TIER ? 4 : 3, "columns");
    if (TIER || i + 1 == rows) sections |= ksym_choose(2, "section") << i;
  }
  const unsigned at = !total ? 0 : TIER ? ksym_choose(total, "at") : total > 1 ? ksym_choose(2, "last") * (total - 1) : 0; // position of the arbitrary cell
  const Bytes f = total ? focus() : Bytes{};
  unsigned k = 0;
  const auto cell = [&] { const unsigned i = k++; return i == at ? f : Fixed[i % 5]; };
  for (unsigned i = 0; i < titles; ++i) title.push_back(cell());
  Table t{title, count != 0};
  for (unsigned i = 0; i < rows; ++i) {
    std::vector<Bytes> r;
    for (unsigned j = 0; j < sizes[i]; ++j) r.push_back(cell());
    t.add(r, (sections >> i & 1) != 0);
    if (count) r.insert(r.begin(), i ? "2" : "1");
    all.push_back(r);
  }
  std::vector<size_t> w;
  const auto widen = [&w](const std::vector<Bytes>& r) {
    for (size_t i = 0; i < r.size(); ++i) {
      if (i == w.size()) w.push_back(0);
      if (const size_t n = width(r[i]); n > w[i]) w[i] = n;
    }
  };
  widen(title);
  for (auto& r : all) widen(r);
  std::ostringstream os;
  t.print(os);
  Bytes want;
  if (!w.empty()) {
    want = line(w, nullptr);
    if (titles) want += line(w, &title);
    for (unsigned i = 0; i < rows; ++i) {
      if (sections >> i & 1) want += line(w, nullptr);
      want += line(w, &all[i]);
    }
    want += line(w, nullptr);
  }
  const Bytes got = os.str();
  obs("table", got);
  ksym_assert(same(got, want), "every line has the same width and every cell its text");
  std::ostringstream md;
  t.printMarkdown(md);
  const Bytes m = md.str();
  obs("markdown", m);
  // every line has the columns of the table and the text of its cells
  std::vector<Bytes> lines;
  Bytes cur;
  for (size_t i = 0; i < m.size(); ++i)
    if (ksym_concretize(m[i] == '\n')) lines.push_back(cur), cur.clear();
    else cur += m[i];
  ksym_assert(cur.empty(), "Markdown ends with a full line");
  ksym_assert(lines.size() == (w.empty() ? 0 : rows + 2), "Markdown has one line for each row");
  if (lines.size() != rows + 2) return;
  for (unsigned i = 0; i < rows + 2; ++i) {
    const auto c = cells(lines[i]);
    ksym_assert(lines[i][0] == '|' && c.size() == w.size(), "Markdown rows have the same columns");
    if (c.size() != w.size()) return;
    for (size_t j = 0; j < w.size(); ++j) {
      Bytes x;
      bool slash = false; // then a backslash before a bar is doubled
      if (i == 1) x = "---";
      else {
        const auto& r = i ? all[i - 2] : title;
        if (j < r.size()) x = r[j];
        for (char y : x) slash = slash || ksym_concretize(y == '\\');
        if (i > 1 && (sections >> (i - 2) & 1) && !x.empty()) x = "**" + x + "**";
      }
      if (!slash) ksym_assert(same(c[j], " " + x + " "), "Markdown cells have their text");
    }
  }
}
