"""Harness units of every property: what is built and the bounds they cover."""
CHECKS = {
    "U01": {"units": {"u01": dict(libs="utils", thorough_defs=["N=6"], bounds={
        "quick": "every byte string of 0..4 non-zero bytes (limit 1..2), every String of 0..2 arbitrary bytes",
        "thorough": "every byte string of 0..6 non-zero bytes, every String of 0..2 arbitrary bytes"})}},
    "U02": {"units": {"u02": dict(libs="utils", bounds={
        "quick": "every 32-bit value; strings of 0..3 arbitrary 32-bit values",
        "thorough": "every 32-bit value; strings of 0..4 arbitrary 32-bit values"})}},
    "U03": {"units": {"u03": dict(libs="utils", thorough_defs=["N=7"], bounds={
        "quick": "every byte string of 0..5 non-zero bytes, both variants",
        "thorough": "every byte string of 0..7 non-zero bytes, both variants"})}},
    "U04": {"units": {"u04": dict(libs="utils", bounds={
        "quick": "every 32-bit code for each of 10 classes; texts of 0..2 arbitrary characters; every byte string of 0..3 non-zero bytes (classes kana, punctuation, any)",
        "thorough": "as quick, texts of 0..3 characters for the 'all' form, byte strings of 0..4 bytes"})}},
    "U05": {"units": {"u05": dict(libs="utils", bounds={
        "quick": "every value of the 8 to 64 bit unsigned types, six widths, all brackets; texts of 0..3 bytes; code strings of 0..2 arbitrary 32-bit codes, texts of 0..2 arbitrary characters",
        "thorough": "as quick, 0..3 arbitrary code points"})}},
    "U06": {"units": {"u06": dict(libs="utils", bounds={
        "quick": "every value of each argument type; every string of 0..4 bytes or codes",
        "thorough": "as quick, strings of 0..6 bytes or codes"})}},
    "U07": {"units": {"u07": dict(libs="utils", bounds="lists of 3, 4 and none, maps of 4 and 255 elements; every value of eight index types; every position with every 64-bit offset; every name of 0..5 bytes")}},
    "U09": {"units": {"u09": dict(libs="utils", bounds={
        "quick": "1 to 3 columns in every order, rows of 0..5 arbitrary bytes (several lines), header lines of 0..6 arbitrary bytes, two delimiters",
        "thorough": "as quick, rows of 0..7 and headers of 0..8 bytes"})}},
    "U10": {"units": {"u10": dict(libs="utils", bounds={
        "quick": "every text of 0..4 bytes (codes 0..6, booleans 0..3) with every 64-bit limit, decimal numbers of 6 digits, of 19 digits with 6 arbitrary, and of 20..21 digits differing from 2^64-1 in the first 2 or last 4 digits",
        "thorough": "one byte more"})}},
    "U08": {"units": {
        "u08": dict(libs="utils", bounds={"quick": "histories of 0..4 symbols over two families, names of 0..2 arbitrary bytes", "thorough": "histories of 0..5 symbols"}),
        "u08b": dict(libs="utils", bounds="a family with 65533 or 65534 symbols, then one request with the empty name, any 4-byte name starting with ff or a 22-byte text followed by any 2 bytes")}},
    "U11": {"units": {"u11": dict(libs="kanji", bounds={"quick": "every 32 bit count and 16 bit index; argument lists of 1..5 entries of four kinds, of up to 3 also with arbitrary texts of 5 or 6 bytes and options followed by an arbitrary byte", "thorough": "arbitrary texts in lists up to 5"})}},
    "K01": {"units": {"k01": dict(libs="kana", bounds={
        "quick": "every byte string of 0..3 non-zero bytes with every choice of kept bytes per step; every character of 2..4 bytes followed by e3 82 or ef b8 and any byte (the encodings of all marks and selectors); accents on every kana; selector functions on every string of 0..8 bytes",
        "thorough": "byte strings of 0..4 bytes, characters of 1..4 bytes followed by any 3 bytes starting with e3 or ef"})}},
    "K02": {"units": {"k02": dict(libs="kana", bounds={
        "quick": "every 32-bit code; every well-formed character of 1..4 bytes; every byte string of 0..2 non-zero bytes; every pair of kana-block characters; texts of 0..3 codes mixing representatives of each kind with one arbitrary code of two 256-code ranges; padding of texts of 0..2 such codes to 0..7 columns, both alignments",
        "thorough": "byte strings of 0..3 bytes, texts of 0..4 codes, padding of 0..3"})}},
    "K03": {"units": {"k03": dict(libs="kana", bounds={
        "quick": "texts of 0..2 arbitrary characters of the kana blocks (0x3040..0x30ff without combining marks), both directions (up to one character with all flags too)",
        "thorough": "all 16 flag combinations; texts of 3 with a small tsu before the last"})}},
    "K04": {"units": {"k04": dict(libs="kana", bounds={
        "quick": "both scripts: every pair of kana; small tsu or n, any kana, one of 10 special kana, with or without a prolong mark after it; one of 3 and one of 10 special kana, any kana; Hepburn and Kunrei for every kana followed by none or one of 10 special kana",
        "thorough": "also any kana, one of 10 special kana, any kana, under each style"})}},
    "K05": {"units": {
        "k05_same": dict(src="k05", defs=["MODE=0"], libs="kana", bounds={"quick": "every byte string of 0..4 bytes, three scripts, all flags", "thorough": "0..5 bytes"}),
        "k05_kana": dict(src="k05", defs=["MODE=1"], libs="kana", bounds={"quick": "every character of 1..4 bytes (but combining marks), with or without any variation selector, after 5 and before 3 kinds of kana, both sources, all targets", "thorough": "6 and 4 kinds, all flags"}),
        "k05_letters": dict(src="k05", defs=["MODE=2"], quick_defs=["LEN=2"], thorough_defs=["LEN=3"], libs="kana", bounds={"quick": "every ASCII string of 0..2 bytes, strings of 3 over 16 characters and of 4 over 8", "thorough": "every ASCII string of 0..3 bytes, 4 over 16, 5 over 8"}),
        "k05_mixed": dict(src="k05", defs=["MODE=3"], libs="kana", bounds={"quick": "every character of 1..4 bytes (but combining marks), with or without any variation selector, after 10 and before 6 kinds of letters, both targets", "thorough": "two characters, the second of 2 bytes"})}},
    "K06": {"units": {"k06": dict(libs="kana", bounds={"quick": "one (or between 'n' and 'a' two) arbitrary ASCII characters but letters between 4 kinds of letters; every 3 byte character between kana; three separators out of five between words; with and without spaces; both scripts", "thorough": "as quick with more surroundings"})}},
    "K07": {"units": {
        "k07_find": dict(src="k07", defs=["MODE=0"], libs="kana", bounds="every text of 1..3 bytes as Romaji, every text of 3 bytes and of 1..2 kana-block characters as kana; all flags for every kana found"),
        "k07_marks": dict(src="k07", defs=["MODE=1"], libs="kana", bounds={"quick": "every kana, alone, after small tsu or with one of 9 second parts, then a repeat mark and up to one more, to Romaji (no flags, Kunrei) and the other script", "thorough": "all styles"})}},
    "K08": {"units": {
        "k08": dict(defs=["MODE=0"], libs="kana", bounds={"quick": "0..2 options, quit and default of any 8-bit character, 2 lines of 0..2 arbitrary bytes and one that ends the prompt", "thorough": "3 lines"}),
        "k08_range": dict(src="k08", defs=["MODE=1"], libs="kana", bounds={"quick": "ranges of 1..4 from any character and any wrong range, 0..1 options, quit, default of any character, lines as before", "thorough": "3 lines"})}},
    "K09": {"units": {"k09": dict(libs="kana", bounds={"quick": "0..2 titles, 0..2 rows of 0..2 columns with fixed texts but one (the first or last) of 0 or 2 arbitrary printable ASCII characters or any 3 byte character; sections, counts", "thorough": "rows of 0..3 columns, any cell with any text of 0..2 ASCII or one character of 3..4 bytes"})}},
}
CHECKS.update({
    "J01": {"units": {"j01": dict(libs="kanji", bounds={"quick": "every text of 0..6 arbitrary bytes; pairs of ids of 2 or 3 arbitrary digits and every kind", "thorough": "0..7 bytes; ids of 2 or 5 digits"})}},
    "J02": {"units": {"j02": dict(libs="kanji", bounds="every pair of 8-bit values; every pair of stroke counts")}},
})
CHECKS.update({
    "J03": {"units": {"j03": dict(libs="kanji", bounds="every pair of types, levels, kyus, 16-bit frequencies and stroke counts (with variants) with three pairs of names; every pair of kanji names of one 3 or 4 byte character (or with a selector), three pairs of compatibility names")}},
    "J04": {"units": {"j04": dict(libs="kanji", bounds={"quick": "every 16-bit number against lists of 13 sizes from 0 to 2900 around the group boundaries, and a second list loaded later; every group number", "thorough": "18 sizes up to 10000"})}},
})
CHECKS.update({
    "J05": {"units": {"j05": dict(libs="kanji", bounds={"quick": "files of 0..4 arbitrary non-zero bytes; two characters (the second of any 3 bytes) with up to 1, 2 and 1 arbitrary bytes around; two files of three kinds with 0..2 fixed entries and any 3 bytes, with or without clearing between", "thorough": "0..5 bytes, three files"})}},
    "J07": {"units": {"j07": dict(libs="kanji", bounds="every 16-bit number and every text of 0..3 bytes against 214 radicals; files of 1..3 radicals with any number text of 0..3 bytes or any name of 3..4 bytes")}},
})
CHECKS.update({
    "J06": {"units": {"j06": dict(libs="kanji", bounds={"quick": "every 32-bit code with every name of 0..3 bytes or one 4 byte character, or a kanji followed by 1 or 3 bytes; source texts of 0..3 and 6..7 bytes with all flags, link kinds and 0..2 links; every name of 0..4 bytes, and every name of a file with any 3 bytes or 4 byte selector after it; files of one row with any text of 0..2 (codes 0..5, radicals 0..3) bytes in one of 12 columns; rules for combinations of columns", "thorough": "sources of 0..4 bytes"})}},
})
CHECKS.update({
    "Q05": {"units": {"q05": dict(libs="quiz", bounds={"quick": "0..4 members with any of 64 names each; 57 to 60 members, the first or last with any of 64 names; every kind of group, three numbers", "thorough": "0..5 members"})}},
})
CHECKS.update({
    "Q06": {"units": {"q06": dict(libs="quiz", bounds={"quick": "lines of both formats with any 0..3 bytes put in at, or instead of, any of their parts (well-formed text without marks and selectors), after none or one other line; any word of 0..3 bytes with or without a kanji before, readings of 0..3 bytes; any second word in the same or another file", "thorough": "0..4 bytes"})}},
})
CHECKS.update({
    "Q02": {"units": {"q02": dict(libs="quiz", pre="rng.h", bounds={"quick": "lists of 2..4 kanji sharing readings in any way, 2..3 choices, every question, both styles, every key, every 32-bit number for each of up to choices + 1 draws (with 4 kanji: choices)", "thorough": "lists of 2..5 kanji, 2..4 choices, up to choices + 2 draws"})}},
})
CHECKS.update({
    "Q03": {"units": {"q03": dict(libs="quiz", pre="rng.h", bounds={"quick": "lists of 1..3 kanji (quiz: 2..3, two choices), review and quiz, three orders (three fixed sequences of random numbers), every 16-bit start, meanings on or off, every sequence of 3 keys of any byte, then quit", "thorough": "4 keys"})}},
})
CHECKS.update({
    "Q04": {"units": {
        "q04": dict(libs="quiz", pre="rng.h", bounds={"quick": "one group of 2..3 members, or two groups of 2, sharing readings and meanings in any way, review and quiz, meanings on or off, two fixed sequences of random numbers, two beginnings, then every sequence of 3 lines of no or any one byte, then a fixed ending", "thorough": "4 lines, three beginnings, four sequences of random numbers"}),
        "q04big": dict(src="q04", defs=["BIG"], libs="quiz", pre="rng.h", bounds={"quick": "groups of 25, 26, 27 and 58 members: any key first and then all others in order; all but one answered in order, then any of them edited", "thorough": "also 40 and 57 members"}),
    }},
})
CHECKS.update({
    "Q07": {"units": {
        "q07": dict(libs="quiz", pre="rng.h", bounds={"quick": "one meaning group of 2..3 members or two of 2, all (of the second group one) with any type, level, 16-bit frequency and with or without reading; four kinds, three orders, review and quiz", "thorough": "1..3 groups, the first of 2..3 members"}),
        "q07pattern": dict(src="q07", defs=["PATTERN"], libs="quiz", pre="rng.h", bounds={"quick": "12 pattern groups in order of readings (the ones that begin a range always there) with any of 3 missing and one of 6 without enough members, every range, two orders", "thorough": "any of 6 missing, any one without enough members"}),
    }},
})
CHECKS.update({
    "Q01": {"units": {
        "q01option": dict(src="q01", defs=["MODE=0"], libs="quiz", pre="rng.h", bounds={"quick": "'-' and any 0..2 bytes with 9 kinds of other options around", "thorough": "0..3 bytes with 13 kinds of other options"}),
        "q01number": dict(src="q01", defs=["MODE=1"], libs="quiz", pre="rng.h", bounds={"quick": "start positions of any 1..6 digits after three prefixes, two types before or after", "thorough": "five prefixes, four types"}),
        "q01list": dict(src="q01", defs=["MODE=2"], libs="quiz", pre="rng.h", bounds="any type and list byte after 8 kinds of mode options, with and without meanings"),
        "q01kanji": dict(src="q01", defs=["MODE=3"], libs="quiz", pre="rng.h", bounds={"quick": "any argument of 0..3 bytes, after 'm' and 'n', and after 'u' 0..3 bytes or 4..6 (but the first: digits and letters a to g)", "thorough": "0..4 bytes"}),
    }},
})
CHECKS.update({
    "S01": {"units": {
        "s01": dict(src="s01", defs=["MODE=0"], libs="stats", bounds="two entries with any 64-bit counts, names of 0..3 bytes, any type and frequency up to 2600 (or not found)"),
        "s01set": dict(src="s01", defs=["MODE=1"], libs="stats", bounds={"quick": "three different names with any counts, frequencies and types", "thorough": "four"}),
    }},
})
CHECKS.update({
    "S02": {"units": {
        "s02": dict(src="s02", defs=["MODE=0"], libs="stats", bounds={"quick": "any two texts of 0..3 bytes with one of two tags or none, with and without a filter", "thorough": "three texts of 0..4 bytes"}),
        "s02file": dict(src="s02", defs=["MODE=2"], libs="stats", bounds={"quick": "a file of none or two fixed lines and any 0..3 bytes, with and without tag and counting its name", "thorough": "0..4 bytes"}),
        "s02char": dict(src="s02", defs=["MODE=1"], libs="stats", bounds={"quick": "two texts of 0..2 characters (kana with marks, kanji with a selector, any of 128 codes from 3040), tagged or not, with and without a filter", "thorough": "0..3 characters, also any of 4 bytes"}),
    }},
})
CHECKS.update({
    "S03": {"units": {
        "s03": dict(src="s03", defs=["MODE=0"], libs="stats", pre="regex.h", bounds={"quick": "a line of 0..7 of four characters (any kanji from U+6F00 to U+6F3F, any kana from U+3040 to U+307F, two brackets); a file of 0..6 of those and line breaks", "thorough": "a file of 0..7, also ASCII letters"}),
        "s03char": dict(src="s03", defs=["MODE=1"], libs="stats", pre="regex.h", bounds={"quick": "furigana with any well-formed character of 2..4 bytes (no mark or selector) in any of its places or after it, a line break at any place (3 bytes), and four kinds of text before and after", "thorough": "six kinds of text before, five after"}),
        "s03byte": dict(src="s03", defs=["MODE=2"], libs="stats", pre="regex.h", bounds={"quick": "any text of 0..4 bytes", "thorough": "0..5 bytes"}),
    }},
})
CHECKS.update({
    "S04": {"units": {
        "s04": dict(libs="stats", pre="stats.h", bounds={"quick": "a file of one of three beginnings (with furigana over two lines, or seven kanji), none or one of 14 characters and any well-formed character of 3 bytes (2..4 bytes without the one); three orders of computing the rows, file name with or without a kanji, with and without breakdown", "thorough": "four beginnings, any character of 2..4 bytes, all combinations"}),
    }},
})
CHECKS.update({
    "K10": {"units": {
        "k10args": dict(src="k10", defs=["MODE=0"], libs="kana", pre="tty.h", bounds={"quick": "0..3 arguments (then none or a string): ten fixed ones, up to one of '-' and any byte, '-f' and any 1..2 bytes, or just '-' or a letter; input given, from a pipe or a terminal", "thorough": "0..4 such arguments"}),
        "k10lines": dict(src="k10", defs=["MODE=1"], libs="kana", pre="tty.h", bounds={"quick": "three beginnings, 3 lines: seven fixed ones, up to one of '-' and any byte, any byte, or the flag command with any answer of 0..2 bytes; with and without quit", "thorough": "four beginnings, two of the lines"}),
        "k10chart": dict(src="k10", defs=["MODE=2"], libs="kana", pre="tty.h", bounds="both charts, with any type option and flag"),
    }},
})
