// J06: Unicode data entries
#include "h.h"
#include <kt_kana/Converter.h>
#include <kt_kanji/UcdData.h>
#include <kt_utils/Exception.h>
#include <kt_utils/UnicodeBlock.h>
#include <kt_utils/Utf8.h>
using namespace kanji_tools;

namespace {
std::string path() { return std::string(ksym_dir()) + "/ucd.txt"; }
const unsigned char* u(const Bytes& s) { return reinterpret_cast<const unsigned char*>(s.c_str()); }

void entry() { // any code with any name
  const unsigned k = ksym_choose(7, "kind");
  const Bytes s = k < 4 ? symString(k, "name") : k == 4 ? symChar(4, "name") : "一" + symString(k == 5 ? 1 : 3, "name");
  const auto c = sym<uint32_t>("code");
  const Item x = s.empty() ? Item{} : item(u(s));
  bool good = !s.empty() && x.ok && isKanji(encode(x.code));
  if (good && x.len < s.size()) { // may be followed by one non-spacing mark
    const Item m = item(u(s) + x.len);
    good = m.ok && x.len + m.len == s.size() && isNonSpacing(static_cast<Code>(m.code));
  }
  bool threw = false;
  try {
    const Ucd::Entry e{c, s};
    ksym_assert(same(e.name(), s) && e.code() == c, "an entry keeps its name and code");
    ksym_assert(same(e.codeAndName(), toUnicode(static_cast<Code>(c), BracketType::Square) + ' ' + s), "code and name");
    ksym_reach("entry created");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !(good && x.code == c), "an entry is created exactly for a kanji with its own code");
}
void sources() { // any source letters, flags and links
  const unsigned n = ksym_choose(TIER ? 5 : 4, "letters");
  const bool many = n == 0 && ksym_choose(2, "many");
  Bytes s = symString(many ? 1 : n, "sources");
  if (many) {
    s += "HJKTV";
    s += symString(ksym_choose(2, "more"), "last");
  }
  const bool joyo = symBool("joyo"), jinmei = symBool("jinmei");
  const auto type = sym<unsigned char>("link type");
  ksym_assume(type <= static_cast<unsigned>(Ucd::LinkTypes::None));
  const unsigned links = ksym_choose(3, "links");
  Ucd::Links l;
  if (links > 0) l.emplace_back(0x4e8cU, "二");
  if (links > 1) l.emplace_back(0x20000U, "\xf0\xa0\x80\x80");
  static const char Letters[]{"GHJKTV"};
  bool good = s.size() <= 6;
  Bytes sorted;
  for (const char* p = Letters; *p; ++p) {
    unsigned c = 0;
    for (char x : s) c += x == *p;
    good = good && c < 2;
    if (c == 1) sorted += *p;
  }
  good = good && sorted.size() == s.size();
  bool threw = false;
  try {
    const Ucd x{{0x4e00U, "一"}, "block", "1.1", 1, Strokes{3, 4}, "pin", "12P", "1,2", s, "J0", joyo, jinmei, l, static_cast<Ucd::LinkTypes>(type), "meaning", "ON", "KUN"};
    ksym_assert(same(x.sources(), sorted), "an entry reports exactly its source letters");
    ksym_assert(x.joyo() == joyo && x.jinmei() == jinmei, "flags");
    ksym_assert(x.hasLinks() == (links > 0) && x.links().size() == links, "links");
    const bool trad = type == 5 || type == 10;
    ksym_assert(x.hasTraditionalLinks() == trad && x.hasNonTraditionalLinks() == (links && !trad), "kinds of links");
    ksym_assert(x.linkedReadings() == (type < 6) && x.linkType() == static_cast<Ucd::LinkTypes>(type), "reading links");
    ksym_assert(x.name() == "一" && x.code() == 0x4e00 && x.radical() == 1 && x.strokes() == Strokes(3, 4) && x.morohashiId().toString() == "12P" && x.nelsonIds() == "1,2" && x.jSource() == "J0" && x.meaning() == "meaning" && x.onReading() == "ON" && x.kunReading() == "KUN" && x.pinyin().name() == "pin" && x.block().name() == "block" && x.version().name() == "1.1" && x.codeAndName() == "[4E00] 一", "other fields");
    ksym_assert(x.linkCodeAndNames() == (links == 0 ? "" : links == 1 ? "[4E8C] 二" : "[4E8C] 二, [20000] \xf0\xa0\x80\x80"), "links print as code and name");
    ksym_reach("created");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !good, "sources are accepted exactly when they are known and distinct");
}
enum Col { Code_, Name, Block, Version, Radical_, Strokes_, VStrokes, Pinyin_, Morohashi, Nelson, Sources, JSource, Joyo, Jinmei, LinkCodes, LinkNames, LinkType, Meaning, On, Kun, Japanese, Cols };
const char* const Heads[Cols]{"Code", "Name", "Block", "Version", "Radical", "Strokes", "VStrokes", "Pinyin", "MorohashiId", "NelsonIds", "Sources", "JSource", "Joyo", "Jinmei", "LinkCodes", "LinkNames", "LinkType", "Meaning", "On", "Kun", "Japanese"};
struct Row {
  Bytes c[Cols];
  Row(const char* code, const char* name) {
    c[Code_] = code, c[Name] = name, c[Block] = "CJK", c[Version] = "1.1", c[Radical_] = "1", c[Strokes_] = "5", c[On] = "ICHI";
  }
  Row& set(Col k, const Bytes& v) { c[k] = v; return *this; }
};
void write(const std::vector<Row>& rows) {
  Bytes s;
  for (int i = 0; i < Cols; ++i) s += Bytes(i ? "\t" : "") + Heads[i];
  s += '\n';
  for (auto& r : rows) {
    for (int i = 0; i < Cols; ++i) s += (i ? "\t" : "") + r.c[i];
    s += '\n';
  }
  ksym_write_file(path().c_str(), s.data(), s.size());
}
// 僧 with a jinmei variant U+FA31, 侮 with a jinmei variant U+FA30, 嗅 with
// another kind of link, one of 4 bytes
std::vector<Row> base() {
  return {Row("50E7", "僧").set(Joyo, "Y").set(Meaning, "m"),
      Row("FA31", "\xef\xa8\xb1").set(Jinmei, "Y").set(LinkCodes, "50E7").set(LinkNames, "僧").set(LinkType, "Jinmei*"),
      Row("4FAE", "侮"), Row("FA30", "\xef\xa8\xb0").set(Jinmei, "Y").set(LinkCodes, "4FAE").set(LinkNames, "侮").set(LinkType, "Compatibility"),
      Row("55C5", "嗅"), Row("9F46", "齆").set(LinkCodes, "55C5").set(LinkNames, "嗅").set(LinkType, "Simplified"),
      Row("20000", "\xf0\xa0\x80\x80")};
}
UcdData* data; // loaded natively from these rows
void find() {
  static const char* const Names[]{"僧", "\xef\xa8\xb1", "侮", "\xef\xa8\xb0", "嗅", "齆", "\xf0\xa0\x80\x80"};
  const unsigned k = ksym_choose(7, "kind");
  Bytes s, first;
  if (k < 3) s = symString(k, "name");
  if (k == 3) s = symString(3, "name");
  if (k == 4) s = symString(4, "name");
  if (k > 4) { // a name or another kanji, followed by any 3 or 4 bytes
    const unsigned i = ksym_choose(8, "base");
    first = i < 7 ? Names[i] : "一";
    s = first + (k == 5 ? symString(3, "selector") : "\xf3" + symString(3, "selector"));
  }
  const UcdPtr p = data->find(s);
  int want = -1;
  for (int i = 0; i < 7; ++i) want = same(s, Names[i]) ? i : want;
  if (k == 5) { // the 16 selectors of the basic plane
    const unsigned char* q = u(s) + first.size();
    const bool sel = q[0] == 0xef && q[1] == 0xb8 && q[2] >= 0x80 && q[2] <= 0x8f;
    if (sel) want = first == Names[0] ? 1 : first == Names[2] ? 3 : -1;
  }
  ksym_assert((p != nullptr) == (want >= 0), "exactly the loaded names and jinmei variants are found");
  if (p) {
    ksym_assert(same(p->name(), Names[want]), "the entry found has the name, or is the variant linked to it");
    ksym_reach("found");
  }
}
// one row with one or two arbitrary columns
void load() {
  static const Col Any[]{Code_, Radical_, Strokes_, VStrokes, Sources, Joyo, Jinmei, LinkCodes, LinkNames, LinkType, Morohashi, Name};
  const unsigned links = ksym_choose(4, "links");
  Row r("4E00", "一");
  if (links & 1) r.set(LinkCodes, "4E8C").set(LinkNames, "二").set(LinkType, "Traditional");
  if (links == 3) r.set(LinkCodes, "4E8C,4E09").set(LinkNames, "二,三");
  r.set(Jinmei, links == 3 ? "Y" : "").set(Joyo, links == 2 ? "T" : "").set(Meaning, links == 2 ? "one" : "");
  const Col c = Any[ksym_choose(sizeof Any / sizeof *Any, "column")];
  const unsigned len = ksym_choose(c == Name || c == Code_ ? 6 : c == LinkNames || c == Radical_ ? 4 : 3, "length");
  const Bytes old = r.c[c], v = symString(len, "text");
  for (char x : v) ksym_assume(x != '\t' && x != '\n');
  r.set(c, v);
  write({r});
  const auto num = [](const Bytes& s, unsigned max) { // -1 if not a number
    unsigned n = 0;
    bool ok = !s.empty();
    for (char x : s) {
      ok &= (x >= '0') & (x <= '9');
      n = n * 10 + static_cast<unsigned char>(x - '0');
    }
    return ok && n <= max ? static_cast<int>(n) : -1;
  };
  bool ok = true;
  unsigned radical = 1;
  int strokes = 5, variant = 0;
  bool joyo = links == 2, jinmei = links == 3;
  const auto flag = [&](bool& f) {
    f = v.size() == 1 && (v[0] == 'Y' || v[0] == 'T');
    ok = f || v.empty() || (v.size() == 1 && (v[0] == 'N' || v[0] == 'F'));
  };
  switch (c) {
  case Code_: ok = v == "4E00" || v == "04E00"; break;
  case Name: ok = v == "一"; break;
  case Radical_: {
    const int n = num(v, 214);
    ok = n > 0;
    radical = static_cast<unsigned>(n);
    break;
  }
  case Strokes_: {
    const int n = num(v, 64);
    ok = n > 0;
    if (ok) strokes = n;
    break;
  }
  case VStrokes: {
    const int n = num(v, 33);
    ok = v.empty() || (n > 2 && n != 5);
    if (ok && !v.empty()) variant = n;
    break;
  }
  case Sources: {
    for (char x : v) ok = ok && (x == 'G' || x == 'H' || x == 'J' || x == 'K' || x == 'T' || x == 'V');
    ok = ok && !(v.size() == 2 && v[0] == v[1]);
    break;
  }
  case Joyo: flag(joyo); break;
  case Jinmei: flag(jinmei); break;
  case LinkCodes: ok = v.empty() && r.c[LinkNames].empty(); break; // 4 hex digits at least
  case LinkNames: // short texts are no kanji; one of 3 bytes only fits its code
    ok = v.empty() ? old.empty() : (links & 1) && same(v, "二");
    break;
  case LinkType: ok = v.empty() == r.c[LinkNames].empty(); if (!v.empty()) ok = false; break;
  case Morohashi: {
    bool n = true;
    for (char x : v) n = n && x >= '0' && x <= '9';
    const bool prime = v.size() == 2 && v[0] > '0' && v[0] <= '9' && (v[1] == 'P' || v[1] == '\'');
    const bool sup = v.size() == 2 && v[0] == 'H' && v[1] > '0' && v[1] <= '9';
    ok = n || prime || sup;
    break;
  }
  default: break;
  }
  if (joyo && (jinmei || r.c[Meaning].empty() || !r.c[LinkNames].empty())) ok = false;
  UcdData d;
  bool threw = false;
  try {
    d.load(path());
    const UcdPtr p = d.find("一");
    ksym_assert(p && d.map().size() == 1, "the row is loaded");
    ksym_assert(p->joyo() == joyo && p->jinmei() == jinmei && p->radical() == radical && p->strokes().value() == strokes && p->strokes().variant() == variant, "flags, radical and strokes");
    ksym_assert(p->links().size() == (c == LinkNames && v.empty() ? 0U : c == LinkNames ? 1U : links == 3 ? 2U : links == 1), "links");
    if (jinmei && p->hasLinks()) ksym_assert(d.find("二\xef\xb8\x80") == p, "a jinmei variant is found by selector");
    else ksym_assert(!d.find("二\xef\xb8\x80"), "only jinmei variants are found by selector");
    ksym_reach("row loaded");
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !ok, "a row is accepted exactly when its columns are valid");
}
// two rows and which of them clash; what has to be present
void rules() {
  const unsigned k = ksym_choose(4, "case");
  bool ok = true;
  if (k == 0) { // one of four columns
    const unsigned m = ksym_choose(16, "present");
    Row r("4E00", "一");
    r.set(On, m & 1 ? "ICHI" : "").set(Kun, m & 2 ? "HITO" : "").set(Morohashi, m & 4 ? "1" : "").set(JSource, m & 8 ? "J0" : "");
    write({r});
    ok = m;
  } else if (k == 1) { // the same name or two variants of one kanji
    const unsigned m = ksym_choose(4, "rows");
    Row a("FA30", "\xef\xa8\xb0"), b("FA31", "\xef\xa8\xb1");
    for (Row* r : {&a, &b}) r->set(LinkCodes, "4FAE").set(LinkNames, "侮").set(LinkType, "Jinmei").set(Jinmei, m & 1 ? "Y" : "");
    if (m & 2) b = Row("FA30", "\xef\xa8\xb0");
    write({a, b});
    ok = m == 0;
  } else if (k == 2) { // links need codes and a kind
    const unsigned m = ksym_choose(8, "present");
    Row r("4E00", "一");
    if (m & 1) r.set(LinkNames, "二");
    if (m & 2) r.set(LinkCodes, "4E8C");
    if (m & 4) r.set(LinkType, "Semantic*");
    write({r});
    ok = m == 0 || m == 7;
  } else { // readings become kana, on before kun
    const Bytes on = symString(ksym_choose(3, "on"), "on"), kun = symString(ksym_choose(3, "kun"), "kun");
    for (char x : on + kun) ksym_assume(x == 'A' || x == 'K' || x == 'N' || x == ' ');
    Row r("4E00", "一");
    write({r.set(On, on).set(Kun, kun).set(JSource, "J0")});
    UcdData d;
    d.load(path());
    Converter c;
    Bytes x = on, y = kun;
    for (Bytes* p : {&x, &y})
      for (char& ch : *p) if (ch == ' ') ch = ',';
    Bytes w = c.convert(CharType::Romaji, x, CharType::Katakana);
    if (!y.empty()) w += c.convert(CharType::Romaji, (w.empty() ? "" : ",") + y, CharType::Hiragana);
    ksym_assert(same(d.getReadingsAsKana(d.find("一")), w), "on readings in katakana, then kun readings in hiragana");
    ksym_assert(d.getReadingsAsKana(nullptr).empty(), "no entry has no readings");
    return;
  }
  UcdData d;
  bool threw = false;
  try {
    d.load(path());
  } catch (const DomainError&) { threw = true; }
  ksym_assert(threw == !ok, "rows are accepted exactly when they keep the rules");
}
}
extern "C" void ksym_setup() {
  write(base());
  data = new UcdData;
  data->load(path());
}
extern "C" void ksym_main() {
  switch (ksym_choose(5, "part")) {
  case 0: entry(); break;
  case 1: sources(); break;
  case 2: find(); break;
  case 3: load(); break;
  default: rules();
  }
}
