// a launcher without groups and compound words
#pragma once
#include "quizref.h"
#include <kt_quiz/GroupQuiz.h>
#include <kt_quiz/ListQuiz.h>
#include <kt_utils/Exception.h>

namespace quizref {
inline KanjiDataPtr data;
inline GroupDataPtr groups;
inline JukugoDataPtr jukugo;
inline void putFile(const char* name, const Bytes& s) {
  ksym_write_file((std::string(ksym_dir()) + '/' + name).c_str(), s.data(), s.size());
}
inline KanjiData::Path putFiles(const Bytes& meaning = "Number\tName\tMembers\n", const Bytes& pattern = "Number\tName\tMembers\n") {
  putFile("meaning-groups.txt", meaning);
  putFile("pattern-groups.txt", pattern);
  for (auto i : {"g1", "g2", "g3", "g4", "g5", "g6", "other"}) putFile((std::string(i) + ".txt").c_str(), "");
  return KanjiData::Path{ksym_dir()};
}
inline void setup(const std::shared_ptr<Data>& d, const KanjiData::Path& dir) {
  data = d;
  groups = std::make_shared<GroupData>(data, &dir);
  jukugo = std::make_shared<JukugoData>(data, &dir);
}
// lines of a text
inline std::vector<Bytes> split(const Bytes& s) {
  std::vector<Bytes> r;
  for (size_t i = 0, j; i < s.size(); i = j + 1) {
    j = s.find('\n', i);
    if (j == Bytes::npos) j = s.size();
    r.push_back(s.substr(i, j - i));
  }
  return r;
}
}
