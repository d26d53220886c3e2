#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so wording is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, *mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
U = "libs/utils/src/"; UI = "libs/utils/include/kt_utils/"
K = "libs/kana/src/"; KI = "libs/kana/include/kt_kana/"
J = "libs/kanji/src/"; JI = "libs/kanji/include/kt_kanji/"
Q = "libs/quiz/src/"; S = "libs/stats/src/"

prop("U01", "UTF-8 decoding is exact and safe for every byte string",
 "Decoding any byte string to Unicode yields, for every well-formed UTF-8 sequence, exactly its code point, and for every ill-formed one (stray continuation, overlong form, surrogate, beyond U+10FFFF, truncated) a replacement character in place of that sequence, without consuming the byte that broke it. It never looks past the end of the text, and a request for at most N characters gives the first N of the full result.",
 ["inputs"], "all byte strings up to the stated length, and all size limits",
 "Tests sample a few dozen strings; the decoder's behaviour depends on the exact combination of up to four bytes (2^32 of them) and on what follows.",
 [U+"Utf8.cpp"], ("decoder state machine", U+"Utf8.cpp fromUtf8/convertOneUtf8"), ("first character only", U+"Utf8.cpp getCode"))
prop("U02", "UTF-8 encoding round-trips every Unicode code point",
 "Every Unicode scalar value is encoded as well-formed, shortest-form UTF-8 that decodes back to the same value; every other 32-bit value (surrogates, beyond U+10FFFF) is encoded as the replacement character. Encoding a string of code points is the concatenation of the encodings of its members, including zero.",
 ["inputs"], "all 2^32 code values and all strings of them up to the stated length",
 "Two billion values and six length boundaries; tests pick about ten.",
 [U+"Utf8.cpp"], ("encoder", U+"Utf8.cpp toUtf8/convertToUtf8"))
prop("U03", "UTF-8 validation accepts exactly the well-formed strings",
 "Validating text reports success exactly when its first character is a well-formed multi-byte UTF-8 sequence, and otherwise the kind of the first error found; the 'single character' variant additionally requires that nothing follows it. Empty text and text starting with an ASCII character count as 'not multi-byte'. Acceptance agrees with the decoder: an accepted character never decodes to an error replacement and re-encodes to the same bytes.",
 ["inputs"], "all byte strings up to the stated length",
 "The validator and the decoder are separate state machines that must agree on every byte combination.",
 [U+"Utf8.cpp", UI+"Utf8.h"], ("validator", U+"Utf8.cpp validateMBUtf8/validateUtf8"), ("predicates", UI+"Utf8.h isValidMBUtf8/isValidUtf8"))
prop("U04", "Character classes are exact and mutually exclusive",
 "For every code point the class tests (hiragana, katakana, kanji common or rare, punctuation, symbol, letter) answer exactly whether the code point lies in one of the published blocks of that class, no code point is in two of the classes, and 'recognised' means in some class. The same test on encoded text accepts exactly one decoded character of the class (optionally followed by one non-spacing mark; ill-formed sequences count as the replacement character and text shorter than two bytes is never a multi-byte character), and the 'all' and 'any' forms agree with testing each decoded character.",
 ["inputs"], "all code points 0..0x10FFFF; all encoded strings up to the stated length",
 "There are over 1.1 million code points and around 30 block boundaries; tests check a few per class.",
 [U+"UnicodeBlock.cpp", UI+"UnicodeBlock.h"], ("block tables and range search", UI+"UnicodeBlock.h inRange"), ("string predicates", U+"UnicodeBlock.cpp inWCharRange"))
prop("U05", "Number formatting round-trips and keeps its width",
 "Hexadecimal, binary and leading-zero formatting of any value denotes exactly that value, is never shorter than the requested (or the type's natural) width and is padded only with zeros, and bracketed forms add exactly one matching pair. The Unicode form of a string lists the code of each of its characters in order.",
 ["inputs"], "all 8, 16, 32 and 64-bit values, widths up to the stated bound, strings up to the stated length",
 "The value space is 2^64 and padding depends on value, width and base together.",
 [U+"String.cpp", UI+"String.h"], ("templates toHex/toBinary/addLeadingZeroes/addBrackets", UI+"String.h"), ("toUnicode", U+"String.cpp"))
prop("U06", "Checked narrowing never changes a value",
 "Converting any wider integer to a character or unsigned character either returns the same value or reports a range error; it never wraps or truncates silently. Case conversion, 'first letter' conversion and single-byte tests act on exactly the ASCII letters and the first character they name and leave every other byte unchanged.",
 ["inputs"], "all values of each accepted integer type; all strings up to the stated length",
 "Off-by-one limits and sign confusion only show at specific boundary values out of 2^64.",
 [U+"String.cpp", UI+"String.h"], ("toChar/toUChar overloads", U+"String.cpp"), ("toLower/toUpper/firstLower/firstUpper, isSingleByte/isAllSingleByte/...", U+"String.cpp"))
prop("U07", "Enum lists and maps never hand out a wrong element",
 "Looking up any integer index in an enum list or map returns the element of exactly that index or reports a range error, and moving an iterator by any amount either lands on exactly the element that far away or reports a range error and leaves it unmoved. Names and values correspond one to one: each value's name looks up to that value and every other name is rejected.",
 ["inputs", "histories"], "all index values, all iterator positions and offsets, all names up to the stated length",
 "Indexes are 64-bit values narrowed internally to 8 bits; wrong results appear only at particular out-of-range values.",
 [UI+"EnumContainer.h", UI+"EnumList.h", UI+"EnumMap.h", UI+"EnumListWithNone.h", UI+"EnumArray.h", U+"EnumContainer.cpp"],
 ("checkIndex and random-access iterator", UI+"EnumContainer.h"), ("name lookup", UI+"EnumList.h"), ("map iterator", UI+"EnumMap.h"))
prop("U08", "Interned symbols identify exactly their names",
 "After any sequence of symbol creations, two symbols compare equal exactly when they were created from the same text, each symbol reports the text it was created from, and the empty text gives the one 'no value' symbol. Distinct symbol families are independent of each other.",
 ["histories"], "all creation sequences up to the stated length over arbitrary names",
 "Correctness depends on the history of previous creations, not on one call.",
 [U+"Symbol.cpp", UI+"Symbol.h"], ("id allocation and lookup", U+"Symbol.cpp BaseSymbol::getId"), ("typed wrapper", UI+"Symbol.h"))
prop("U09", "A data row is split into exactly the declared columns",
 "Reading a tab-separated data file gives, for every row and every declared column in whatever order, exactly the text between the corresponding tabs; a row with too few or too many columns (a final delimiter starts one more, empty column), or a header with missing, repeated or unknown columns, is reported and never mis-assigned to another column.",
 ["inputs", "configurations"], "all header orders and all rows up to the stated length and number of columns",
 "Column position, header order and tab placement interact; tests use a few fixed files.",
 [U+"ColumnFile.cpp", UI+"ColumnFile.h"], ("header processing", U+"ColumnFile.cpp constructor/processHeaderRow"), ("row splitting", U+"ColumnFile.cpp nextRow"))
prop("U10", "Typed column values are exact or rejected",
 "An unsigned column value is accepted exactly when its text is a plain decimal number within the requested limit (zero means no limit), and is then that number; a boolean column is exactly 'Y' or 'T' (true), 'N' or 'F' or empty (false); a code column is exactly four or five upper-case hexadecimal digits and gives that code. Anything else is reported with its position, never silently converted to another value.",
 ["inputs"], "all column texts up to the stated length and all limits",
 "Wrapping, signs, spaces and trailing characters are accepted or not depending on the exact text.",
 [U+"ColumnFile.cpp", UI+"ColumnFile.h"], ("number conversion", U+"ColumnFile.cpp processU64/getU8/getU16/getU32/getU64"), ("getBool, getChar32", U+"ColumnFile.cpp"))
prop("U11", "Argument lists are bounds-checked",
 "An argument list made from any count and array gives back exactly those arguments for indexes below its size and reports an error for every other index; it rejects negative or too large counts and a missing array. Skipping of the shared data and debug options yields exactly the positions of the remaining arguments, in order, for any command line.",
 ["inputs"], "all counts and indexes; all command lines up to the stated number of arguments",
 "Counts and indexes are arbitrary integers and option positions combine exponentially.",
 [U+"Args.cpp", UI+"Args.h", J+"KanjiData.cpp"], ("Args", U+"Args.cpp"), ("option skipping", J+"KanjiData.cpp nextArg/getDebugMode"))
prop("K01", "Walking text character by character loses nothing",
 "Stepping through any text visits every well-formed multi-byte character exactly once and in order, joined to a directly following variation selector or combining mark, with only the requested kinds of bytes skipped, and always terminates. Looking ahead returns exactly what the next step will return and changes nothing; counts of characters, errors, variants and combined marks match what was visited.",
 ["inputs", "histories"], "all byte strings up to the stated length and all interleavings of look-ahead and step",
 "Combination of malformed bytes, marks and selectors at every position is unbounded.",
 [K+"Utf8Char.cpp", KI+"Utf8Char.h"], ("step and look-ahead", K+"Utf8Char.cpp next/peek"), ("size, first character, variation selectors", K+"Utf8Char.cpp"))
prop("K02", "Display width counts wide characters as two columns",
 "The display width of any text is the sum over its characters of two for characters in the published wide blocks, zero for non-spacing marks and one for all others, and padding computed from it makes the padded text exactly as wide as asked whenever the text fits.",
 ["inputs"], "all code points and all strings up to the stated length",
 "Every code point has its own width; tests check a handful.",
 [K+"DisplaySize.cpp", KI+"DisplaySize.h"], ("width table and sum", K+"DisplaySize.cpp displaySize"), ("padding", K+"DisplaySize.cpp wideSetw"))
prop("K03", "Hiragana and Katakana convert into each other losslessly",
 "Converting any hiragana text to katakana gives, character by character, the katakana of the same sound, and converting back returns the original text; the same holds starting from katakana made of kana that exist in both. Repeat marks and prolong marks keep their meaning.",
 ["inputs"], "all sequences of known kana up to the stated length, under every option combination",
 "The number of kana sequences is exponential, and repeat or prolong marks depend on their neighbours.",
 [K+"Converter.cpp", K+"Kana.cpp"], ("conversion", K+"Converter.cpp processKana/toKana"), ("kana table", K+"Kana.cpp"))
prop("K04", "Kana to Romaji is reversible",
 "Kana text (kana and prolong marks, no repeat marks) converted to Romaji without options and back to the same kind of kana is the original text, including small 'tsu' doubling, digraphs, macrons and the apostrophe after 'n'. With the Hepburn or the Kunrei option (one of them) each kana is written in that style, and reading the result back gives kana that are written the same way again (unless a small kana stands alone after a kana it makes no digraph with).",
 ["inputs", "configurations"], "all sequences of known kana up to the stated length; all option flags",
 "Ambiguities arise only between particular neighbouring kana (n + vowel, tsu + consonant, digraphs).",
 [K+"Converter.cpp", K+"Kana.cpp"], ("kana to Romaji", K+"Converter.cpp processKana"), ("Romaji to kana", K+"Converter.cpp processRomaji"))
prop("K05", "Conversion leaves all other text untouched",
 "Well-formed text outside the source script (kanji, letters that form no syllable, digits, other symbols) appears in the output of a conversion unchanged, including its case, and in the same order relative to the converted text, and nothing is lost or duplicated; reading Romaji ignores the case of letters. This excludes the delimiters, the apostrophe and dash that only separate Romaji syllables, repeat marks, combining accents, and a macron after letters that form no syllable. Conversion from a script to itself, and of empty text, is the identity.",
 ["inputs", "configurations"], "all strings up to the stated length; all source, target and option combinations",
 "Unconvertible characters can appear anywhere inside partially read syllables.",
 [K+"Converter.cpp"], ("pass-through of unmatched input", K+"Converter.cpp"))
prop("K06", "Narrow and wide delimiters map one to one",
 "When converting between Romaji and kana each listed delimiter maps to its partner and back, every other character of the text is not treated as a delimiter, and the option to remove spaces drops the spaces of Romaji text and nothing else.",
 ["inputs", "configurations"], "all single delimiters and all pairs in every position up to the stated length",
 "The tables are used in both directions and with options; tests use a few delimiters.",
 [K+"Converter.cpp"], ("delimiter tables", K+"Converter.cpp narrowDelims/wideDelims"))
prop("K07", "Voiced kana and repeat marks are consistent",
 "For every kana the plain, voiced (dakuten) and semi-voiced (han-dakuten) forms link to one another consistently, each kana is found by its hiragana, katakana and every Romaji spelling, and a repeat mark directly after any kana or digraph is written in Romaji as that kana, voiced or plain as the mark says (in its style), and as the mark of the other script when converting between kana scripts.",
 ["inputs", "configurations"], "all kana, both scripts, all option flags, all preceding kana",
 "The relation ranges over pairs of kana and marks in both scripts; tests check examples.",
 [K+"Kana.cpp", KI+"Kana.h"], ("voiced links", K+"Kana.cpp dakuten/plain/findDakuten"), ("repeat marks", K+"Kana.cpp IterationMark::get"))
prop("K08", "A prompt only ever returns an offered choice",
 "Whatever lines the user types, a prompt returns only a choice that was offered, the quit option when enabled, or the default for an empty line when there is one; every other line repeats the prompt. Offered ranges and individual options combine exactly, and duplicate, illegal or non-ASCII options are refused.",
 ["inputs", "histories"], "all choice sets and ranges over all 256 characters, all sequences of typed lines up to the stated bound",
 "Ranges, options, quit and default can collide for particular characters, and input is arbitrary.",
 [K+"Choice.cpp", KI+"Choice.h"], ("prompt loop and option checks", K+"Choice.cpp get/add/addRange"))
prop("K09", "Printed tables stay rectangular",
 "For any rows of printable text (no control characters or line breaks) added to a table, every printed line has the same display width and the same number of columns as the title or widest row, each cell shows exactly its text, and in Markdown output no cell, whatever pipes and backslashes it contains, introduces an extra column or changes another cell; a cell without backslashes reads back exactly.",
 ["inputs"], "all tables up to the stated rows, columns and cell length",
 "Column widths depend on every cell of every row, with short rows and wide characters.",
 [K+"Table.cpp", KI+"Table.h"], ("printing", K+"Table.cpp print/printMarkdown"))
prop("K10", "The kana conversion program does what its options say",
 "For every list of arguments the conversion program either reports what is wrong (an unknown option or flag, a missing flag, two of -i, -m, -n, -p, strings with -i, -m or -p, nothing to convert) and prints nothing, or prints exactly: the usage; the chart, which shows every kana once with its spellings and correct totals; or each string, in order, converted with the given source, target and flags (separated by a space when the target is Romaji, a wide space otherwise and nothing if spaces are removed; -n leaves out the newline). In interactive mode each line either changes exactly the option it names, which is then shown, or is converted with the options in force; after 'q' nothing more is read.",
 ["inputs", "histories"], "all argument lists and sequences of typed lines up to the stated number with arbitrary option and flag characters",
 "Options interact (mode, source, target, flags, position of '--') and interactive state depends on all lines typed before.",
 [K+"KanaConvert.cpp", KI+"KanaConvert.h"], ("arguments", K+"KanaConvert.cpp KanaConvert/processArg/charTypeArgs/flagArgs"), ("interactive mode", K+"KanaConvert.cpp getInput/processLine"), ("chart", K+"KanaConvert.cpp printKanaChart"))
prop("J01", "Morohashi IDs parse and print without loss",
 "A text is accepted as a Morohashi ID exactly when it is empty, or a decimal number within range with at most two prime marks of one style (' or P), or the letter H with such a number and no primes; the value equals that number and kind, printing an ID and reading it back gives an equal ID, and ordering is by number, then kind.",
 ["inputs"], "all strings up to the stated length; all pairs of IDs",
 "Overflow, leading zeros and suffix combinations only fail at particular texts.",
 [J+"MorohashiId.cpp", JI+"MorohashiId.h"], ("parsing and printing", J+"MorohashiId.cpp"))
prop("J02", "Stroke counts are always within their limits",
 "A stroke count can only be created with a value from 1 to its maximum and a variant that is absent, or within its limits and different from the value; anything else is refused. It prints as exactly those numbers and orders by value, then variant.",
 ["inputs"], "all pairs of 8-bit values",
 "All pairs of values matter at boundaries; tests use a few.",
 [J+"Strokes.cpp", JI+"Strokes.h"], ("validation", J+"Strokes.cpp"))
prop("J03", "Kanji orderings are consistent orders",
 "Ordering kanji by stroke count or by qualified name is a strict weak ordering for any kanji attributes: never both ways, transitive, and equal only when rank, strokes, frequency and code are equal; it sorts by the documented keys in their documented priority, with missing frequency last.",
 ["inputs"], "all combinations of type, level, frequency, kyu, strokes and name of up to three kanji",
 "An inconsistent comparison shows only for particular pairs or triples of attributes, and then corrupts sorting.",
 [J+"Kanji.cpp", JI+"Kanji.h"], ("comparisons", J+"Kanji.cpp orderByQualifiedName/orderByStrokes/qualifiedNameRank"))
prop("J04", "Frequency lookup returns exactly the kanji of that rank",
 "After loading any number of frequency-ranked kanji, looking up each rank returns the kanji of that rank and every other number returns nothing; the groups cut the ranking into consecutive equal parts with the remainder in the last, and looking up any number is safe.",
 ["inputs", "configurations"], "all 16-bit ranks and all supported list sizes",
 "Bucket arithmetic fails only at particular ranks near group boundaries.",
 [J+"KanjiData.cpp", JI+"KanjiData.h"], ("bucket fill and lookup", J+"KanjiData.cpp addToFrequencies/findByFrequency/frequencyList"))
prop("J05", "List files keep order and refuse duplicates",
 "Loading a list of kanji (text without NUL bytes) keeps exactly the entries of the file in order with ranks starting at one, finds exactly those names, and refuses malformed characters, several entries where one is allowed, and names already seen in the file or in any other list that must be disjoint.",
 ["inputs", "histories"], "all files up to the stated number of lines and bytes; all load orders",
 "Duplicates and malformed bytes can appear anywhere, across several files loaded one after another.",
 [J+"ListFile.cpp", JI+"ListFile.h"], ("loading and validation", J+"ListFile.cpp load/validate/addEntry"))
prop("J06", "Unicode data entries are validated and found exactly",
 "A Unicode entry is created only for a kanji (optionally followed by one non-spacing mark) whose code matches its name and whose source letters are known and distinct, and it reports exactly those sources and flags; looking up any name returns the entry of that name, a name with a variation selector returns the linked official variant, and otherwise nothing.",
 ["inputs"], "all names, codes, source strings and flag combinations up to the stated length",
 "Source letters, flags and link kinds are packed into bits; combinations are numerous.",
 [J+"Ucd.cpp", JI+"Ucd.h", J+"UcdData.cpp"], ("source bits and links", J+"Ucd.cpp getSources/sources"), ("lookup", J+"UcdData.cpp find"))
prop("J07", "Radicals are found by number and by name exactly",
 "For every number from one to the number of radicals the lookup returns the radical with that number and every other number is refused; looking up a radical by its standard (first) name returns it and any other text is refused; radicals order and compare by number only.",
 ["inputs"], "all 16-bit numbers and all names up to the stated length",
 "Off-by-one and narrowing errors show at particular numbers only.",
 [J+"RadicalData.cpp", J+"Radical.cpp", JI+"RadicalData.h"], ("lookups", J+"RadicalData.cpp find"))
prop("Q01", "Quiz options are parsed exactly or refused",
 "For any command-line option the quiz either starts with exactly the mode, order, start position, list type and list the option names, or reports a usage error; a start position outside the supported range, a malformed number or a second mode or type is always refused with a usage error and never changes meaning.",
 ["inputs"], "all option strings up to the stated length and pairs of options",
 "Option text is arbitrary; signs, digits and overflow give wrong values only for particular strings.",
 [Q+"QuizLauncher.cpp"], ("option parsing", Q+"QuizLauncher.cpp processProgramModeArg/setQuizType/processKanjiArg"))
prop("Q02", "List quiz choices contain the answer once and no repeats",
 "For every question of a list quiz and any random numbers drawn, exactly one offered choice is the correct one, at a position within the choice count, and all offered choices have different readings, so exactly one answer key is counted as correct.",
 ["inputs", "schedules"], "all random draws within the stated bound, all lists up to the stated size",
 "The choices depend on random draws that a test cannot enumerate.",
 [Q+"ListQuiz.cpp"], ("choice selection", Q+"ListQuiz.cpp populateAnswers"))
prop("Q03", "The final score accounts for every question",
 "Whatever keys the user presses, at the end of a list quiz the number of correct answers, mistakes and skipped questions add up to the number of questions passed, each answered question counts once, exactly the wrongly answered kanji are listed as mistakes, and quitting does not count the current question; question positions always stay inside the list.",
 ["histories"], "all key sequences up to the stated length in quiz and review mode",
 "The score depends on the whole history of answers, skips, toggles and quit.",
 [Q+"Quiz.cpp", Q+"ListQuiz.cpp"], ("score and question position", Q+"Quiz.cpp"), ("answer handling", Q+"ListQuiz.cpp getAnswer/start"))
prop("Q04", "Group quiz answers map back to the members chosen",
 "In a group quiz every member has its own answer key, a key once used is not offered again until it is released by an edit, and the score counts exactly the members whose assigned reading equals their own, for any assignment and any edits, for groups of every supported size.",
 ["histories"], "all answer and edit sequences up to the stated length; all group sizes",
 "Letters wrap from lower to upper case at a boundary and edits permute earlier answers.",
 [Q+"GroupQuiz.cpp"], ("answer keys and scoring", Q+"GroupQuiz.cpp showGroup/checkAnswers/editAnswer"))
prop("Q05", "Groups hold two to the maximum distinct members",
 "A group can be created exactly when it has at least two and at most the maximum number of members, all different, and a pattern group also has a pattern kind; otherwise the first failing rule is reported with every duplicate named once.",
 ["inputs"], "all member lists up to the stated size over all equality patterns",
 "Duplicates can occur at any positions and multiplicities.",
 [Q+"Group.cpp"], ("validation", Q+"Group.cpp Group::Group"))
prop("Q06", "Jukugo lines give exactly their word and reading",
 "A line of compound-word data (well-formed text without combining marks and variation selectors) is accepted exactly when its brackets and spacing are as documented, the word has two or more kanji and the reading only hiragana or prolong marks, and then yields exactly the word before the bracket and the reading inside it, listed once for each different kanji of the word; a word repeated in the same file is kept once, and every other line, or a word found in two files, is reported as an error with its position. In the file with several words per line, one character after the dots is skipped and text after a close bracket is not looked at.",
 ["inputs"], "all lines up to the stated length",
 "Bracket order and position and multi-byte text combine in ways tests do not enumerate.",
 [Q+"Jukugo.cpp", Q+"JukugoData.cpp"], ("line parsing", Q+"JukugoData.cpp createJukugo/findOpenBracket/findCloseBracket"))
prop("Q07", "Group quizzes ask exactly the groups of the chosen kind",
 "A group quiz or review asks, each once and in the chosen order, exactly the groups (of pattern groups: those in the chosen range of readings) with two or more members that have a reading and are of the chosen kind, and shows exactly these members; the ranges of pattern groups divide them without loss or overlap.",
 ["inputs"], "all types, levels, frequencies and readings of the members of up to three groups; all ranges",
 "Whether a group has enough members depends on combinations of attributes of each of them.",
 [Q+"GroupQuiz.cpp"], ("group and member selection", Q+"GroupQuiz.cpp prepareList/includeMember/start"))
prop("S01", "Ranking of counted characters is a consistent total order",
 "The ranking used for statistics orders counted characters by descending count, then frequency, type and name, is a strict weak ordering for any counts and kanji, and so the ranked set keeps every counted character and lists it in that order.",
 ["inputs"], "all counts, frequencies, types and names of up to three entries",
 "A comparison that is inconsistent for particular pairs silently drops entries from the set.",
 [S+"Stats.cpp"], ("Count comparison", S+"Stats.cpp Stats::Count::operator<"))
prop("S02", "Counting characters is exact and additive",
 "After adding any texts, the count of each character equals its number of occurrences in them that pass the filter, per tag and in total, the number returned by each addition is the number added, and counting does not depend on how the texts were divided between additions at character boundaries.",
 ["inputs", "histories"], "all texts up to the stated length, all filters and tags",
 "Counts depend on the whole history and on malformed bytes anywhere in it.",
 [S+"Utf8Count.cpp"], ("tally", S+"Utf8Count.cpp add"))
prop("S03", "Removing bracketed readings never removes other text",
 "When furigana removal is applied to a file, only bracketed kana that directly follow a kanji or wide letter, on one line or with a single line break within, are dropped; they are always dropped unless another bracket is still open on the line before (or the letter is itself a bracket); all other text of the file is counted unchanged, and text without furigana is counted as it is whatever its bytes are.",
 ["inputs"], "all files up to the stated number of lines and characters",
 "Brackets may be nested, unbalanced or split over lines in any way.",
 [S+"Utf8Count.cpp"], ("line joining and replacement", S+"Utf8Count.cpp hasUnclosedBrackets/processJoinedLine/processFileWithRegex"))
prop("S04", "Statistics count every character of a file in one row",
 "For any file, the rows of the statistics show for each class of characters exactly the number of characters and of different characters of the file (and its name) in that class, furigana left out for the kana and letter rows; no multi-byte character other than the wide space is missing or in two rows; kanji are broken down by type with the most frequent ones first in rank order, the breakdown lists every kanji or unrecognized character once, and the total and percentages are those of the kana and kanji rows, in whatever order the rows are computed.",
 ["inputs", "schedules"], "all files of the stated shapes with any character in them, rows computed in several orders",
 "The report depends on the class, data and position of every character; nine concurrent counters have to agree.",
 [S+"Stats.cpp", S+"Utf8Count.cpp"], ("report", S+"Stats.cpp countKanji/Pred::run/printKanjiTypeCounts/printRareExamples/printBreakdown"))

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
