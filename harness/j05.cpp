// J05: list files
#include "h.h"
#include <kt_kanji/ListFile.h>
#include <kt_utils/Exception.h>
#include <memory>
using namespace kanji_tools;

namespace {
std::string path(const char* name) { return std::string(ksym_dir()) + "/" + name + ".txt"; }
void write(const char* name, const Bytes& text) { ksym_write_file(path(name).c_str(), text.data(), text.size()); }
// exactly one well-formed character of more than one byte
bool valid(const Bytes& t) {
  if (t.size() < 2 || t.size() > 4) return false;
  const Item x = item(reinterpret_cast<const unsigned char*>(t.c_str()));
  return x.ok && x.len == t.size();
}
std::vector<Bytes> split(const Bytes& s, char d) { // a final delimiter ends the last part
  std::vector<Bytes> r(1);
  for (char c : s)
    if (c == d) r.emplace_back();
    else r.back() += c;
  if (r.back().empty()) r.pop_back();
  return r;
}
bool in(const std::vector<Bytes>& l, const Bytes& s) {
  bool r = false;
  for (auto& i : l) r = r || same(i, s);
  return r;
}
struct Want { bool ok; std::vector<Bytes> list; };
Want want(const Bytes& text, bool onePerLine, const std::vector<Bytes>& taken) {
  Want w{true, {}};
  for (auto& line : split(text, '\n')) {
    const auto tokens = split(line, ' ');
    if (onePerLine && line.find(' ') != Bytes::npos) w.ok = false;
    for (auto& t : tokens) {
      if (!valid(t) || in(w.list, t) || in(taken, t)) w.ok = false;
      if (!w.ok) return w;
      w.list.push_back(t);
    }
  }
  return w;
}
void check(const ListFile& f, const Want& w) {
  ksym_assert(f.size() == w.list.size() && f.list().size() == w.list.size(), "a list has exactly the entries of its file");
  Bytes all;
  for (size_t i = 0; i < w.list.size(); ++i) {
    ksym_assert(same(f.list()[i], w.list[i]), "entries keep the order of the file");
    ksym_assert(f.getIndex(w.list[i]) == i + 1 && f.exists(w.list[i]), "ranks start at one and follow the order");
    all += w.list[i];
  }
  ksym_assert(same(f.toString(), all), "the contents are all entries in order");
  ksym_assert(!f.exists("") && f.getIndex("") == 0 && f.exists("山") == in(w.list, "山"), "other names are not found");
  obs("size", f.size());
}
void text() { // arbitrary bytes
  const bool one = ksym_choose(2, "one per line");
  const Bytes s = symString(ksym_choose((TIER ? 5 : 4) + 1, "length"), "text");
  const Want w = want(s, one, {});
  ListFile::clearUniqueCheckData();
  write("abc", s);
  bool threw = false;
  try {
    const ListFile f{path("abc"), one ? ListFile::FileType::OnePerLine : ListFile::FileType::MultiplePerLine};
    check(f, w);
    ksym_assert(f.name() == "Abc" && f.level() == JlptLevels::None && f.kyu() == KenteiKyus::None, "an untyped list");
    if (!w.list.empty()) ksym_reach("entry loaded");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !w.ok, "a file is accepted exactly when all its entries are valid and new");
}
// one or two well-formed characters with arbitrary bytes around
void around() {
  const bool one = ksym_choose(2, "one per line");
  Bytes s = symString(ksym_choose(2, "before"), "first") + "山";
  s += symString(ksym_choose(3, "between"), "middle");
  s += ksym_choose(2, "same") ? "山" : symChar(3, "second");
  s += symString(ksym_choose(2, "after"), "last");
  const Want w = want(s, one, {});
  ListFile::clearUniqueCheckData();
  write("abc", s);
  bool threw = false;
  try {
    const ListFile f{path("abc"), one ? ListFile::FileType::OnePerLine : ListFile::FileType::MultiplePerLine};
    ksym_assert(f.size() == w.list.size(), "a list has exactly the entries of its file");
    for (size_t i = 0; i < w.list.size(); ++i)
      ksym_assert(same(f.list()[i], w.list[i]) && f.getIndex(w.list[i]) == i + 1, "entries keep the order of the file");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !w.ok, "a file is accepted exactly when all its entries are valid and new");
}
// several files one after another
void history() {
  static const char* const Name[]{"a", "b", "c"};
  const Bytes other = symString(3, "entry"); // any 3 bytes, used in place of some entry
  std::vector<std::unique_ptr<ListFile>> files;
  std::vector<Want> wants;
  std::vector<Bytes> taken[3];
  ListFile::clearUniqueCheckData();
  const unsigned n = 2 + (TIER ? ksym_choose(2, "files") : 0), sym = ksym_choose(n, "file with it");
  bool ok = true;
  for (unsigned i = 0; i < n && ok; ++i) {
    const unsigned kind = ksym_choose(3, "kind"), mask = ksym_choose(4, "entries");
    if (i && ksym_choose(2, "clear")) {
      ListFile::clearUniqueCheckData();
      for (auto& t : taken) t.clear();
    }
    Bytes s;
    if (mask & 1) s += kind ? "一 " : "一\n";
    if (i == sym) s += other + (kind ? " " : "\n");
    if (mask & 2) s += "丁\n";
    write(Name[i], s);
    const Want w = want(s, !kind, taken[kind]);
    bool threw = false;
    try {
      const std::string p = path(Name[i]);
      if (!kind) files.push_back(std::make_unique<ListFile>(p));
      else if (kind == 1) files.push_back(std::make_unique<LevelListFile>(p, i ? JlptLevels::N1 : JlptLevels::N5));
      else files.push_back(std::make_unique<KyuListFile>(p, i ? KenteiKyus::K1 : KenteiKyus::K10));
      const ListFile& f = *files.back();
      ksym_assert(f.level() == (kind != 1 ? JlptLevels::None : i ? JlptLevels::N1 : JlptLevels::N5) && f.kyu() == (kind != 2 ? KenteiKyus::None : i ? KenteiKyus::K1 : KenteiKyus::K10), "level and kyu");
      ksym_assert(f.name() == (kind == 0 ? i == 0 ? "A" : i == 1 ? "B" : "C" : kind == 1 ? i ? "N1" : "N5" : i ? "K1" : "K10"), "name");
    } catch (const DomainError&) { threw = true; }
    ksym_assert(threw == !w.ok, "a file is accepted exactly when all its entries are valid and new among the lists of its kind");
    ok = w.ok;
    if (ok) {
      wants.push_back(w);
      taken[kind].insert(taken[kind].end(), w.list.begin(), w.list.end());
    }
  }
  for (size_t i = 0; i < wants.size(); ++i) check(*files[i], wants[i]);
  if (ok) ksym_reach("all files loaded");
}
void missing() {
  const unsigned k = ksym_choose(3, "kind");
  write("abc", "一\n");
  bool threw = false;
  ListFile::clearUniqueCheckData();
  try {
    const ListFile f{k == 0 ? path("none") : k == 1 ? std::string(ksym_dir()) : std::string(ksym_dir()) + "/abc"};
    check(f, {true, {"一"}});
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == (k < 2), "only a regular file, with or without its extension, is loaded");
}
}
extern "C" void ksym_main() {
  switch (ksym_choose(4, "case")) {
  case 0: text(); break;
  case 1: around(); break;
  case 2: history(); break;
  default: missing();
  }
}
