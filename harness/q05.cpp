// Q05: groups
#include "quizref.h"
#include <kt_quiz/Group.h>
#include <kt_utils/Exception.h>
using namespace quizref;

namespace {
KanjiPtr pool[Group::MaxGroupSize + 3]; // different kanji
Bytes name(size_t i) { return encode(static_cast<uint32_t>(0x5000 + i)); }
}
extern "C" void ksym_setup() {
  for (size_t i = 0; i < std::size(pool); ++i) pool[i] = keep({name(i), "よみ"});
}
extern "C" void ksym_main() {
  const unsigned big = ksym_choose(2, "big");
  std::vector<KanjiPtr> members;
  if (!big) { // up to 5 kanji with any names of 64
    const unsigned n = ksym_choose(TIER ? 6 : 5, "members");
    for (unsigned i = 0; i < n; ++i) {
      const auto b = sym<unsigned char>("name");
      ksym_assume(b >= 0x80 && b <= 0xbf);
      members.push_back(keep({Bytes{'\xe5', '\x80', static_cast<char>(b)}, "よみ"}));
    }
  } else { // around the limit, with one kanji that may be a duplicate of any other
    const unsigned n = Group::MaxGroupSize - 1 + ksym_choose(4, "size");
    members.assign(pool, pool + n);
    const auto b = sym<unsigned char>("name");
    ksym_assume(b >= 0x80 && b <= 0xbf);
    members[ksym_choose(2, "last") ? n - 1 : 0] = keep({Bytes{'\xe5', '\x80', static_cast<char>(b)}, "よみ"});
  }
  static constexpr Group::Number Numbers[]{0, 7, 65535};
  const unsigned k = ksym_choose(5, "kind"), number = ksym_choose(3, "number");
  const Group::Number no = Numbers[number];
  using P = Group::PatternType;
  const P type = k < 4 ? static_cast<P>(k) : P::None;
  const Bytes label = type == P::Peer ? "：部" : "水部";
  const Bytes id = '[' + std::to_string(no) + ' ' + label + ']';
  Bytes error;
  if (members.empty()) error = "no members";
  else if (members.size() == 1) error = "only one member";
  else if (members.size() > Group::MaxGroupSize) error = "more than 58 members";
  else {
    unsigned count = 0;
    Bytes names;
    for (size_t i = 0; i < members.size(); ++i) {
      bool before = false, after = false;
      for (size_t j = 0; j < members.size(); ++j)
        if (j != i && ksym_concretize(same(members[i]->name(), members[j]->name()))) (j < i ? before : after) = true;
      if (after && !before) {
        ++count;
        names += ' ' + members[i]->name();
      }
    }
    if (count) error = std::to_string(count) + " duplicate member" + (count > 1 ? "s:" : ":") + names;
    else if (k == 3) error = "invalid pattern type";
  }
  bool threw = false;
  Bytes what;
  try {
    GroupPtr g;
    if (k == 4) g = std::make_shared<MeaningGroup>(no, label, members);
    else g = std::make_shared<PatternGroup>(no, label, members, type);
    bool all = g->members().size() == members.size();
    for (size_t i = 0; all && i < members.size(); ++i) all = g->members()[i] == members[i];
    ksym_assert(all, "a group has exactly its members in order");
    ksym_assert(g->number() == no && g->name() == label && g->patternType() == type && g->toString() == id, "number, name and kind");
    ksym_assert(g->type() == (k == 4 ? GroupType::Meaning : GroupType::Pattern), "type of group");
    std::ostringstream os;
    os << *g;
    ksym_assert(same(os.str(), type == P::Peer ? "[Peers " + members[0]->name() + label + ']' : '[' + label + ']'), "a group prints its name");
    ksym_reach("created");
  } catch (const DomainError& e) {
    threw = true;
    what = e.what();
  }
  ksym_assert(threw == !error.empty(), "a group is created exactly when it has 2 to 58 different members and a kind");
  if (threw) {
    ksym_assert(same(what, "group " + id + " has " + error), "the first failing rule is reported with each duplicate once");
    ksym_reach("refused");
  }
}
