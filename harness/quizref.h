// kanji and data for the quiz harnesses
#pragma once
#include "h.h"
#include <kt_kanji/KanjiData.h>
#include <sstream>

namespace quizref {
using namespace kanji_tools;
inline const Radical Rad{1, "一", {}, {}, {}};
struct Attr {
  Bytes name, reading, meaning;
  KanjiTypes type{KanjiTypes::Jouyou};
  KanjiGrades grade{KanjiGrades::None};
  JlptLevels level{JlptLevels::None};
  KenteiKyus kyu{KenteiKyus::None};
  uint16_t freq{};
  Bytes morohashi;
  std::vector<uint16_t> nelson;
};
class K final : public Kanji {
public:
  explicit K(const Attr& a) : Kanji{a.name, {}, Rad, Strokes{1}, {}, MorohashiId{a.morohashi}, a.nelson}, _a{a} {}
  KanjiTypes type() const final { return _a.type; }
  Meaning meaning() const final { return _a.meaning; }
  Reading reading() const final { return _a.reading; }
  Frequency frequency() const final { return _a.freq; }
  KanjiGrades grade() const final { return _a.grade; }
  KenteiKyus kyu() const final { return _a.kyu; }
  JlptLevels level() const final { return _a.level; }
  const Attr _a;
};
inline std::stringstream sink;
class Data final : public KanjiData {
public:
  explicit Data(const Path& dir, DebugMode m = DebugMode::None) : KanjiData{dir, m, sink, sink} {}
  Kanji::Frequency frequency(const String&) const final { return 0; }
  JlptLevels level(const String&) const final { return JlptLevels::None; }
  KenteiKyus kyu(const String&) const final { return KenteiKyus::None; }
  void add(const Attr& a) {
    const auto k = std::make_shared<K>(a);
    checkInsert(k);
    if (a.kyu != KenteiKyus::None) addToKyus(k);
    if (a.level != JlptLevels::None) addToLevels(k);
    if (a.freq) addToFrequencies(k);
  }
  void insert(const KanjiPtr& p) { checkInsert(p); } // in no list
  void loadUcd(const Path& p) { getUcd().load(p); }
};
inline KanjiPtr keep(const Attr& a) { return KanjiPtr{KanjiPtr{}, new K{a}}; } // never deleted
}
