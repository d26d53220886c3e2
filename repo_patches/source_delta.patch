From d55a4f4777cdb54592a8386da1611dcb16b7d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:27 +0000
Subject: [PATCH 01/23] fix: check enum indexes and iterator offsets before
 narrowing them to 8 bits

A 32 or 64-bit index (or iterator offset) with low byte in range was
accepted, i.e., list[256] returned the first element.
---
 libs/utils/include/kt_utils/EnumContainer.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libs/utils/include/kt_utils/EnumContainer.h b/libs/utils/include/kt_utils/EnumContainer.h
index 9847a8e..a08cb2a 100644
--- a/libs/utils/include/kt_utils/EnumContainer.h
+++ b/libs/utils/include/kt_utils/EnumContainer.h
@@ -5,6 +5,8 @@
 
 #include <compare>
 #include <concepts>
+#include <cstdint>
+#include <limits>
 
 namespace kanji_tools { /// \utils_group{EnumContainer}
 /// base classes used by EnumMap and EnumList
@@ -143,7 +145,8 @@ protected:
 template <scoped_enum T, Enum::Size N> template <typename I>
 requires std::integral<I> || std::same_as<T, I>
 auto EnumContainer<T, N>::checkIndex(I i, const String& name) {
-  const auto x{static_cast<Size>(i)};
+  // check the full value (negative values become large) before narrowing
+  const auto x{static_cast<std::uintmax_t>(i)};
   if (x >= N) {
     String msg{name};
     if constexpr (std::is_same_v<I, T>)
@@ -152,7 +155,7 @@ auto EnumContainer<T, N>::checkIndex(I i, const String& name) {
       msg += std::to_string(i);
     rangeError(msg + RangeMsg);
   }
-  return x;
+  return static_cast<Size>(x);
 }
 
 template <scoped_enum T, Enum::Size N>
@@ -197,18 +200,20 @@ auto EnumContainer<T, N>::Iterator<Derived>::operator[](
 template <scoped_enum T, Enum::Size N>
 template <typename Derived>
 auto& EnumContainer<T, N>::Iterator<Derived>::operator+=(difference_type i) {
-  if (difference_type curIndex{index()}; (curIndex += i) < 0)
+  if (const difference_type curIndex{index()}; i < -curIndex)
     rangeError(BadBegin);
-  else if (const auto j{static_cast<Size>(curIndex)}; j > N)
+  else if (i > N - curIndex)
     rangeError(BadEnd);
   else
-    index() = j;
+    index() = static_cast<Size>(curIndex + i);
   return derived();
 }
 
 template <scoped_enum T, Enum::Size N>
 template <typename Derived>
 auto& EnumContainer<T, N>::Iterator<Derived>::operator-=(difference_type i) {
+  // avoid overflow when negating the minimum value
+  if (i == std::numeric_limits<difference_type>::min()) rangeError(BadEnd);
   return *this += -i;
 }
 
-- 
2.43.0


From a8b19dcbb85b2a301969fdd7a1c83b168c10dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:52 +0000
Subject: [PATCH 02/23] fix: only accept decimal digits when reading an
 unsigned column value

---
 libs/utils/src/ColumnFile.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 141df70..ae052bc 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <set>
 #include <sstream>
 
@@ -119,11 +120,11 @@ ColumnFile::OptU64 ColumnFile::getOptU64(const Column& c, uint64_t max) const {
 uint64_t ColumnFile::processU64(
     const String& s, const Column& column, uint64_t max) const {
   uint64_t i{};
-  try {
-    i = std::stoul(s);
-  } catch (...) {
+  // unlike 'stoul', don't allow spaces, signs or trailing (non-digit) characters
+  const auto end{s.data() + s.size()};
+  if (const auto [p, e]{std::from_chars(s.data(), end, i)};
+      e != std::errc{} || p != end)
     error("failed to convert to unsigned number", column, s);
-  }
   if (max && max < i)
     error("exceeded max value of " + std::to_string(max), column, s);
   return i;
-- 
2.43.0


From 1c4951a91efe3e82930d8659359a5987a46d4901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:36 +0000
Subject: [PATCH 03/23] fix: reject an extra empty column at the end of a row
 or header

---
 libs/utils/src/ColumnFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index ae052bc..5e3f8e0 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -59,6 +59,8 @@ void ColumnFile::processHeaderRow(const String& row, ColNames& colNames) {
     foundCols.insert(header);
     colNames.erase(i);
   }
+  // 'getline' doesn't return an empty field after a final delimiter
+  if (row.ends_with(_delimiter)) error("unrecognized header ''");
 }
 
 void ColumnFile::verifyHeaderColumns(const ColNames& colNames) const {
@@ -83,6 +85,8 @@ bool ColumnFile::nextRow() {
       if (i == _rowValues.size()) error("too many columns");
       _rowValues[i] = field;
     }
+    if (i == _rowValues.size() && line.ends_with(_delimiter))
+      error("too many columns");
     // the above call to 'getline' returns false when there's no more data, but
     // it also returns false if it only reads a delimiter and then reaches the
     // end of input so need a special case for an empty final column
-- 
2.43.0


From 718efb69a2acc98b3969b9e09bf511a3e7e967a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:49 +0000
Subject: [PATCH 04/23] fix: ignore case of a repeated consonant when
 converting Romaji

---
 libs/kana/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 063af05..b221ed7 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -339,7 +339,7 @@ void Converter::processRomaji(String& letters, String& result) const {
     // unconverted since no valid romaji can be longer than 3 letters
     result += lower[0] == 'n' ? getN()
               : lower[0] == lower[1] || lower[0] == 't' && lower[1] == 'c'
-                  ? repeatingConsonants().contains(letters[0])
+                  ? repeatingConsonants().contains(lower[0])
                         ? getSmallTsu()
                         : letters.substr(0, 1) // error: first letter not valid
                   : letters.substr(0, 1);      // error: first letter not valid
-- 
2.43.0


From 5368d3d1f1456a6433e6490a529d39fb4be6fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:49 +0000
Subject: [PATCH 05/23] fix: convert every part of an unknown kana group, in
 order

---
 libs/kana/src/Converter.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index b221ed7..d1b4949 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -254,19 +254,16 @@ String Converter::processKana(const String& kanaGroup, CharType source,
     // if letter group is an unknown, split it up and try processing each part
     if (kanaGroup.size() > Kana::OneKanaSize) {
       const auto firstKana{kanaGroup.substr(0, Kana::OneKanaSize)};
-      if (const auto i{sourceMap.find(kanaGroup.substr(Kana::OneKanaSize))};
-          i != sourceMap.end())
-        return romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
-                       repeatingConsonants().contains(i->second->romaji()[0])
-                   ? processKanaMacron(prolong, prevKana, i->second, true)
-                   : processKana(firstKana, source, prevKana) +
-                         processKanaMacron(prolong, prevKana, i->second);
-      // return second part unconverted - this should be impossible by design
-      // since only Kana that exists in sourceMap are added to 'kanaGroup'
-      // XCOV_EXCL_START
-      return processKana(firstKana, source, prevKana) +
-             kanaGroup.substr(Kana::OneKanaSize);
-      // XCOV_EXCL_STOP
+      const auto rest{kanaGroup.substr(Kana::OneKanaSize)};
+      if (const auto i{sourceMap.find(rest)};
+          romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
+          i != sourceMap.end() &&
+          repeatingConsonants().contains(i->second->romaji()[0]))
+        return processKanaMacron(prolong, prevKana, i->second, true);
+      // process the parts in order so that 'prevKana' ends up as the last Kana
+      // (second part can still be two Kana if it isn't a digraph, like 'っかゃ')
+      auto result{processKana(firstKana, source, prevKana)};
+      return result += processKana(rest, source, prevKana, prolong);
     }
   } else if (prolong)
     // a 'prolong mark' at the start of a group isn't valid so in this case just
-- 
2.43.0


From 756f04e8777d1ec8315e798503c280f505706dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:49 +0000
Subject: [PATCH 06/23] fix: base sokuon on the Romaji actually produced (so
 not for 'wo' as 'o')

---
 libs/kana/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index d1b4949..cf8043a 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -258,7 +258,7 @@ String Converter::processKana(const String& kanaGroup, CharType source,
       if (const auto i{sourceMap.find(rest)};
           romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
           i != sourceMap.end() &&
-          repeatingConsonants().contains(i->second->romaji()[0]))
+          repeatingConsonants().contains(get(*i->second)[0]))
         return processKanaMacron(prolong, prevKana, i->second, true);
       // process the parts in order so that 'prevKana' ends up as the last Kana
       // (second part can still be two Kana if it isn't a digraph, like 'っかゃ')
-- 
2.43.0


From 6567abd2fe95344ed17d048ee57166ff023ce74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:49 +0000
Subject: [PATCH 07/23] fix: separate 'n' from 'wo', 'wi' and 'we' if they
 become one vowel

---
 libs/kana/src/Converter.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index cf8043a..6137d00 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -183,9 +183,15 @@ String Converter::fromKana(const String& kanaInput, CharType source) const {
                       DoneType dt = DoneType::NewGroup, State ns = State::New) {
     // NOLINTNEXTLINE: NonNullParamChecker
     result += processKana(kanaGroup, source, prevKana, dt == DoneType::Prolong);
-    if (romajiTarget() && Kana::N.containsKana(kanaGroup) &&
-        afterN(source).contains(kana))
-      result += Apostrophe;
+    if (romajiTarget() && Kana::N.containsKana(kanaGroup)) {
+      // also check for Kana like 'wo' that flags can turn into a single vowel
+      auto& sourceMap{Kana::getMap(source)};
+      if (const auto i{sourceMap.find(kana)};
+          afterN(source).contains(kana) ||
+          i != sourceMap.end() && *i->second != Kana::N &&
+              get(*i->second).size() == 1)
+        result += Apostrophe;
+    }
     kanaGroup = dt == DoneType::NewGroup ? kana : emptyString();
     state = ns;
   }};
-- 
2.43.0


From 593d5962ab427381f44f239d2e036a6f5c2c3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:49 +0000
Subject: [PATCH 08/23] fix: keep unconverted Romaji letters before the text
 that follows them

---
 libs/kana/src/Converter.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 6137d00..7ea1e1b 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -299,6 +299,17 @@ String Converter::processKanaMacron(
 
 String Converter::toKana(const String& romajiInput) const {
   String result, letters, letter;
+  const auto flush{[this, &result, &letters] {
+    while (!letters.empty())
+      if (isN(letters)) {
+        result += getN(); // normal case for a word ending in 'n'
+        letters.clear();
+      } else {
+        result += letters[0]; // error: output the unprocessed letter
+        letters = letters.substr(1);
+        processRomaji(letters, result);
+      }
+  }};
   for (Utf8Char s{romajiInput}; s.next(letter, false);)
     if (isSingleByte(letter)) {
       if (!isN(letter)) {
@@ -316,17 +327,10 @@ String Converter::toKana(const String& romajiInput) const {
       }
     } else if (!processRomajiMacron(letter, letters, result)) {
       processRomaji(letters, result);
+      flush(); // letters before other text mustn't be moved after it
       result += letter;
     }
-  while (!letters.empty())
-    if (isN(letters)) {
-      result += getN(); // normal case for a word ending in 'n'
-      letters.clear();
-    } else {
-      result += letters[0]; // error: output the unprocessed letter
-      letters = letters.substr(1);
-      processRomaji(letters, result);
-    }
+  flush();
   return result;
 }
 
-- 
2.43.0


From e010bb15bffd8e106e94cf7ba915ef93b5e02e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:00 +0000
Subject: [PATCH 09/23] fix: convert a vowel that follows an unconverted Romaji
 letter

---
 libs/kana/src/Converter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 7ea1e1b..20b4536 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -322,7 +322,7 @@ String Converter::toKana(const String& romajiInput) const {
         result += getN();
       else {
         // error: partial romaji followed by n, output unconverted partial group
-        result += letters;
+        flush();
         letters = letter; // 'n' starts a new group
       }
     } else if (!processRomajiMacron(letter, letters, result)) {
@@ -350,9 +350,11 @@ void Converter::processRomaji(String& letters, String& result) const {
                         ? getSmallTsu()
                         : letters.substr(0, 1) // error: first letter not valid
                   : letters.substr(0, 1);      // error: first letter not valid
-    letters = letters.substr(1);
-    // try converting the shortened letters
-    processRomaji(letters, result);
+    // try converting the shortened letters (one at a time since a vowel can be
+    // followed by the start of another group, like 'cabe')
+    const String rest{letters.substr(1)};
+    letters.clear();
+    for (const auto c : rest) processRomaji(letters += c, result);
   }
 }
 
-- 
2.43.0


From 5e33b1fb366306132dcfaeb8eaeab6d3dbd0c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:53:45 +0000
Subject: [PATCH 10/23] fix: keep the case of an unconverted 'N' that follows
 another 'n'

---
 libs/kana/src/Converter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 20b4536..74b458e 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -317,10 +317,11 @@ String Converter::toKana(const String& romajiInput) const {
         processRomaji(letters, result);
       } else if (letters.empty())
         letters += letter;
-      else if (isN(letters))
-        // got two 'n's in a row so output one, but don't clear letters
+      else if (isN(letters)) {
+        // got two 'n's in a row so output one and keep the second (as it is)
         result += getN();
-      else {
+        letters = letter;
+      } else {
         // error: partial romaji followed by n, output unconverted partial group
         flush();
         letters = letter; // 'n' starts a new group
-- 
2.43.0


From 7580c1bd0bb8a3d72ee508116f09ffd326057d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:13:50 +0000
Subject: [PATCH 11/23] fix: escape backslashes before a pipe in Markdown table
 cells

---
 libs/kana/src/Table.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/kana/src/Table.cpp b/libs/kana/src/Table.cpp
index 38c005d..4fc7c4c 100644
--- a/libs/kana/src/Table.cpp
+++ b/libs/kana/src/Table.cpp
@@ -80,11 +80,13 @@ void Table::printMarkdownRow(
     if (i < row.size()) {
       String out;
       out.reserve(row[i].size());
-      for (const auto c : row[i])
-        if (c == '|')
-          out += "\\|";
-        else
-          out += c;
+      for (size_t slashes{}; const auto c : row[i]) {
+        // escape a pipe and any backslashes before it (otherwise the last one
+        // would escape the added backslash instead of the pipe)
+        if (c == '|') out.append(slashes + 1, '\\');
+        slashes = c == '\\' ? slashes + 1 : 0;
+        out += c;
+      }
       if (out.empty() || rowType != RowType::Section)
         os << out;
       else
-- 
2.43.0


From de557e51438b65edc5afb62073032085ac4e55a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:15 +0000
Subject: [PATCH 12/23] fix: order kanji by code point instead of hex digits (5
 digit codes were first)

---
 libs/kanji/src/Kanji.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/kanji/src/Kanji.cpp b/libs/kanji/src/Kanji.cpp
index 4b695b1..31d19e8 100644
--- a/libs/kanji/src/Kanji.cpp
+++ b/libs/kanji/src/Kanji.cpp
@@ -95,8 +95,8 @@ bool Kanji::orderByStrokes(const Kanji& x) const {
          strokes() == x.strokes() &&
              (frequencyOrMax() < x.frequencyOrMax() ||
                  frequencyOrMax() == x.frequencyOrMax() &&
-                     toUnicode(compatibilityName()) <
-                         toUnicode(x.compatibilityName()));
+                     fromUtf8(compatibilityName()) <
+                         fromUtf8(x.compatibilityName()));
 }
 
 bool Kanji::operator==(const Kanji& x) const { return name() == x.name(); }
-- 
2.43.0


From 7cc66233e69d40bc525cbd53c24b99adc3ed5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:15 +0000
Subject: [PATCH 13/23] fix: findByFrequency read outside of its lists for
 lists above 2750 entries

---
 libs/kanji/src/KanjiData.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libs/kanji/src/KanjiData.cpp b/libs/kanji/src/KanjiData.cpp
index 5f35259..17b0f63 100644
--- a/libs/kanji/src/KanjiData.cpp
+++ b/libs/kanji/src/KanjiData.cpp
@@ -108,11 +108,14 @@ KanjiPtr KanjiData::findByName(const String& s) const {
 
 KanjiPtr KanjiData::findByFrequency(Kanji::Frequency freq) const {
   if (!freq || freq >= _maxFrequency) return {};
-  auto bucket{--freq};
-  bucket /= FrequencyEntries;
-  if (bucket == FrequencyBuckets)
-    --bucket; // last bucket contains FrequencyEntries + 1
-  return _frequencies[bucket][freq - bucket * FrequencyEntries];
+  --freq;
+  // last bucket contains all the remaining entries (FrequencyEntries + 1)
+  const size_t bucket{
+      std::min<size_t>(freq / FrequencyEntries, FrequencyBuckets - 1)};
+  const auto& list{_frequencies[bucket]};
+  const auto i{freq - bucket * FrequencyEntries};
+  // _maxFrequency is static so it could be from an object with more entries
+  return i < list.size() ? list[i] : KanjiPtr{};
 }
 
 const KanjiData::List& KanjiData::findByMorohashiId(
-- 
2.43.0


From de2bc719a39a2b9cbe3e45644af141b7fac3a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:36 +0000
Subject: [PATCH 14/23] fix: Stats::Count ordering wasn't a consistent order

---
 libs/stats/src/Stats.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/stats/src/Stats.cpp b/libs/stats/src/Stats.cpp
index dcaf834..d5229e4 100644
--- a/libs/stats/src/Stats.cpp
+++ b/libs/stats/src/Stats.cpp
@@ -110,10 +110,9 @@ KanjiTypes Stats::Count::type() const {
 }
 
 bool Stats::Count::operator<(const Count& x) const {
-  return _count > x._count ||
-         (_count == x._count && frequency() < x.frequency() ||
-             (frequency() == x.frequency() && type() < x.type() ||
-                 (type() == x.type() && _name < x._name)));
+  if (_count != x._count) return _count > x._count;
+  if (frequency() != x.frequency()) return frequency() < x.frequency();
+  return type() < x.type() || type() == x.type() && _name < x._name;
 }
 
 std::ostream& operator<<(std::ostream& os, const Stats::Count& c) {
-- 
2.43.0


From 9ba1bbd45df0fc0c0cfa3eaab670cf87577d043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:36 +0000
Subject: [PATCH 15/23] fix: group quiz answers after 'z' read outside of the
 readings

---
 libs/quiz/src/GroupQuiz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index 4ee0f79..f44d1b1 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -258,7 +258,7 @@ void GroupQuiz::checkAnswers(
   size_t correctCount{};
   for (size_t count{}; auto i : _answers) {
     const auto answer{
-        static_cast<size_t>(i <= 'z' ? i - 'a' : i - 'A' + TotalLetters)};
+        static_cast<size_t>(i >= 'a' ? i - 'a' : i - 'A' + TotalLetters)};
     // always look at reading for a match and only additionally require matching
     // meanings if '_showMeanings' is true
     if (questions[count]->reading() == readings[answer]->reading() &&
-- 
2.43.0


From d2b611e2a484e63ba5dba29eaa574ea4f406e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:36 +0000
Subject: [PATCH 16/23] fix: -r and -t without digits or with huge numbers gave
 no usage error

---
 libs/quiz/src/QuizLauncher.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/quiz/src/QuizLauncher.cpp b/libs/quiz/src/QuizLauncher.cpp
index 2b26469..22b9728 100644
--- a/libs/quiz/src/QuizLauncher.cpp
+++ b/libs/quiz/src/QuizLauncher.cpp
@@ -276,12 +276,10 @@ QuizLauncher::Question QuizLauncher::processProgramModeArg(const String& arg) {
         if (arg[2] == '+') offset = 3;
       }
       const auto s{arg.substr(offset)};
-      if (!std::all_of(s.begin(), s.end(), ::isdigit))
+      if (s.empty() || !std::all_of(s.begin(), s.end(), ::isdigit))
         KanjiData::usage(
             "invalid format for '" + arg.substr(0, 2) + "', use -h for help");
-      if (const auto i{std::stoul(s)};
-          i <= std::numeric_limits<Question>::max())
-        return static_cast<Question>(i);
+      if (Question i{}; std::stringstream{s} >> i) return i;
       KanjiData::usage("value for '" + arg.substr(0, 2) + "' exceeds limit");
     }
   }
-- 
2.43.0


From ef506c162de64b5afdfb086685426347f2693673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:36 +0000
Subject: [PATCH 17/23] fix: jukugo with close bracket before open bracket was
 accepted

---
 libs/quiz/src/JukugoData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index 7d13b96..eb2a581 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -101,6 +101,7 @@ void JukugoData::createJukugo(
     const String& line, KanjiGrades grade, bool onePerLine) {
   const auto open{findOpenBracket(line, onePerLine)},
       close{findCloseBracket(line, onePerLine)};
+  if (close < open) error("close bracket is before open bracket");
   const auto name{line.substr(0, onePerLine ? open - 1 : open)},
       reading{line.substr(open + 1, close - open - 1)};
   // There are some duplicates in data files which makes sense for
-- 
2.43.0


From a05a3946269d63bcdfd9eef8e29fed731aa5f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:36 +0000
Subject: [PATCH 18/23] fix: jukugo with the same kanji twice was listed twice

---
 libs/quiz/src/JukugoData.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index eb2a581..15bb85d 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -116,7 +116,10 @@ void JukugoData::createJukugo(
     const auto jukugo{std::make_shared<Jukugo>(name, reading, grade)};
     Utf8Char nameChars{name};
     for (String c; nameChars.next(c);)
-      if (isKanji(c)) _kanjiToJukugo[c].emplace_back(jukugo);
+      if (isKanji(c)) // only add once even if 'c' is repeated in 'name'
+        if (auto& list{_kanjiToJukugo[c]};
+            list.empty() || list.back() != jukugo)
+          list.emplace_back(jukugo);
     _uniqueJukugo.emplace(key, jukugo);
   } else if (i->second->grade() != grade)
     throw DomainError("jukugo '" + name + "' found in more than one file");
-- 
2.43.0


From 21eda5837b58e982631803b7a0f0ec7ecdfa9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:16:04 +0000
Subject: [PATCH 19/23] fix: jukugo readings with ASCII characters were
 accepted

---
 libs/quiz/src/Jukugo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/Jukugo.cpp b/libs/quiz/src/Jukugo.cpp
index ba705ef..496d00f 100644
--- a/libs/quiz/src/Jukugo.cpp
+++ b/libs/quiz/src/Jukugo.cpp
@@ -13,7 +13,7 @@ Jukugo::Jukugo(const String& name, const String& reading, KanjiGrades grade)
     if (isKanji(c)) ++count;
   if (!count) error("contains no Kanji");
   if (count < 2) error("must contain two or more Kanji");
-  for (String c; readingChars.next(c);)
+  for (String c; readingChars.next(c, false);)
     if (!isHiragana(c) && c != Kana::ProlongMark)
       error("reading must be all Hiragana");
 }
-- 
2.43.0


From 8dac0fbfddf726b9989f1d0f2291e28a019b01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:04:21 +0000
Subject: [PATCH 20/23] fix: group quiz of all kanji asked groups with less
 than two readings

---
 libs/quiz/src/GroupQuiz.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index f44d1b1..f6313a7 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -34,10 +34,7 @@ GroupQuiz::GroupQuiz(const QuizLauncher& launcher, Question question,
     const auto c{get("Pattern name", PatternGroupChoices, '1')};
     if (isQuit(c)) return;
     start(prepareList(list, c - '1'));
-  } else if (launcher.questionOrder() == QuestionOrder::FromBeginning &&
-             _memberType == MemberType::All)
-    start(list); // can use the original list in this case
-  else
+  } else
     start(prepareList(list));
 }
 
-- 
2.43.0


From 1671b4b9adeea61d15202f89e0d102ce497568ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:19:48 +0000
Subject: [PATCH 21/23] fix: lines with invalid UTF-8 were counted as having
 furigana removed

---
 libs/stats/src/Utf8Count.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index 1bdaa28..06842ef 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -28,8 +28,11 @@ Utf8Count::Utf8Count(
 size_t Utf8Count::add(const String& s, const OptString& tag) {
   auto n{s};
   if (_find) {
-    n = toUtf8(std::regex_replace(fromUtf8ToWstring(s), *_find, _replace));
-    if (n != s) {
+    // compare wide strings: converting back wouldn't give 's' for invalid UTF-8
+    const auto before{fromUtf8ToWstring(s)};
+    if (const auto after{std::regex_replace(before, *_find, _replace)};
+        after != before) {
+      n = toUtf8(after);
       ++_replacements;
       if (tag && tag != _lastReplaceTag) {
         if (_debug) *_debug << "Tag '" << *tag << "'\n";
-- 
2.43.0


From ad5f585702f23a86c842370c5eae1a70e87ba8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:18 +0000
Subject: [PATCH 22/23] fix: -n didn't suppress the newline after converted
 string arguments

---
 libs/kana/src/KanaConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 5e77ed3..58e210a 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -231,7 +231,7 @@ void KanaConvert::start(const List& strings) {
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-    _out << '\n';
+    if (!_suppressNewLine) _out << '\n';
   }
 }
 
-- 
2.43.0


From cf15b2ce180269dc8bb002aa111da2d612a57734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:18 +0000
Subject: [PATCH 23/23] fix: string arguments converted to Romaji weren't
 separated by spaces

---
 libs/kana/src/KanaConvert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 58e210a..6ac96e9 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -227,7 +227,8 @@ void KanaConvert::start(const List& strings) {
       if (space)
         _out << (_converter.target() == CharType::Romaji ? " " : "　");
       else
-        space = _converter.target() != CharType::Romaji &&
+        // 'RemoveSpaces' only applies to Hiragana and Katakana output
+        space = _converter.target() == CharType::Romaji ||
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-- 
2.43.0

