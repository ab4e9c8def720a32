#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })


TESTS = "The tests are tables of a few hundred fixed input/output pairs per language; "

# ---------------------------------------------------------------- engine
p("P01", "Chinese/Japanese pipelines are total and deterministic",
  "With any option settings, the Chinese and Japanese normalizers and inverse normalizers return a string for every text made of Unicode scalar values other than NUL (the empty string gives the empty string), instead of raising. "
  "The result depends only on the text and the options: repeating the call, calling it after other calls, or calling it on another instance built the same way gives the same string.",
  ["inputs", "histories", "configurations"], "all Unicode texts without NUL/surrogates, all call histories, option settings",
  TESTS + "no test feeds arbitrary Unicode (every code point, quotes and backslashes, control characters) or repeats calls in other orders.",
  ["tn/processor.py", "tn/token_parser.py", "tn/chinese/rules/char.py", "tn/japanese/rules/char.py", "itn/chinese/rules/char.py", "itn/japanese/rules/char.py"],
  [("Char fallback rule accepts every character with a high weight", "*/rules/char.py"), ("shortest path over tagger/verbalizer lattices", "tn/processor.py")])

p("P02", "English pipelines are total on ordinary sentences",
  "The English normalizer and inverse normalizer return a string, instead of raising, for every sentence of English words, plain numbers (digits of up to seven places, in the inverse direction number words) and sentence marks (. , ! ? ;) attached to words, separated by runs of spaces; words of four letters or more that no rule names come out verbatim, in order and separated by one space. "
  "The result does not depend on previous calls or on which equally configured instance is used.",
  ["inputs", "histories"], "all sentences over ASCII words, plain numbers (English TN) or number words (English ITN), and . , ! ? ; marks attached to words",
  TESTS + "sentence combinations (word x number x punctuation x position) are not sampled.",
  ["tn/english/normalizer.py", "tn/english/rules/word.py", "itn/english/inverse_normalizer.py", "itn/english/rules/word.py", "itn/english/rules/punctuation.py"],
  [("word/char/punctuation fallbacks", "tn/english/rules, itn/english/rules")])

p("P03", "Tagged fields are verbatim input text in input order",
  "Tagging never rewrites text: in the token stream that tag() returns, every field value (other than the markers that only steer verbalization, such as preserve_order) is a verbatim substring of the input, the values occur in the input left to right without overlapping, and between two tokens nothing but white space of the input is skipped. "
  "This holds for all six pipelines and all options.",
  ["inputs", "configurations"], "all texts accepted by a pipeline",
  TESTS + "a handful of tests look at tag() output, only for fixed sentences.",
  ["tn/processor.py", "docs/python-rule-architecture.md", "tn/chinese/normalizer.py", "itn/chinese/inverse_normalizer.py"],
  [("tag_field wraps the input projection of a rule", "tn/processor.py Processor.tag_field")])

p("P04", "Token wire format round-trips and rejects malformed streams",
  "Any list of tokens (unique field names, arbitrary text values including quotes and backslashes) that is written in the wire format `name { key: \"value\" ... }` with escaped values parses back to exactly those tokens, and reordering emits the type's documented fields in the documented order, then the remaining fields in their original order, or leaves the order alone when preserve_order is true. "
  "A stream that is empty, truncated, has duplicate fields or any other syntax error raises TokenParseError and nothing else.",
  ["inputs"], "all token lists; all strings as streams",
  "test/token_parser tests check a few literal streams; the round trip and the rejection must hold for every value and every mutation of a stream.",
  ["tn/token_parser.py"], [("TokenParser.parse/reorder/escape_value", "tn/token_parser.py")])

p("P05", "Alignment maps every output character to its input exactly",
  "normalize_with_mapping(text) returns the same output as normalize(text) together with edits that are in order and do not overlap, whose input and output texts equal the slices their half-open character offsets name, whose kind states what happened (equal/replace/delete), and which together with the uncovered text, which is the same on both sides (for English up to the spaces between words), rebuild the output from the input. "
  "include_identity only adds entries for unchanged spans, and the same holds for each n-best candidate.",
  ["inputs", "configurations"], "all texts accepted by a pipeline, nbest values, include_identity on/off",
  TESTS + "mapping tests use a few sentences per language.",
  ["tn/alignment.py", "tn/processor.py"], [("span composition between tagger and verbalizer paths", "tn/alignment.py")])

p("P06", "N-best output is the ranked prefix of one fixed list",
  "normalize(text, nbest=n) returns at most n distinct strings, the first equal to normalize(text), and the list for n is a prefix of the list for every larger n; the same strings come from normalize_with_mapping(text, nbest=n). "
  "The order is by the joint rule weight of tagging and verbalization, and an nbest that is not a positive integer (bool, float, string, zero, negative) raises ValueError.",
  ["inputs", "configurations"], "all texts, all n; all small weighted grammars for the ranking",
  "tests check a few sentences with small n; ranking must hold for every lattice.",
  ["tn/processor.py"], [("joint n-best stream", "tn/processor.py")])

p("P07", "normalize is verbalize after tag, whatever the field order",
  "For every text verbalize(tag(text)) is one of the text's ranked candidates, and equals normalize(text) unless another reading of exactly the same weight exists. "
  "verbalize depends on the tokens, not on how the stream is written: permuting the documented fields of a token (one without preserve_order) or changing the spaces between tokens and fields gives the same output, and tokens keep their place in the stream.",
  ["inputs"], "all texts; all permutations of fields and of stream whitespace",
  TESTS + "field order variations of a token stream are not tested.",
  ["tn/processor.py", "tn/token_parser.py"], [("canonical field orders", "*/normalizer.py TOKEN_ORDERS, tn/token_parser.py")])

p("P08", "Chinese/Japanese normalization is local: context is kept",
  "For Chinese and Japanese TN and ITN, placing an expression in plain text (text that no rule names), set off from it by a Chinese/Japanese comma or full stop, yields the plain text unchanged around the expression's own normalization; in particular plain text is returned unchanged and sentences with plain text between them are normalized independently. ",
  ["inputs"], "all plain contexts x all expressions of the grammars",
  TESTS + "expressions are mostly tested alone or in one fixed sentence.",
  ["tn/chinese/normalizer.py", "tn/japanese/normalizer.py", "itn/chinese/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py"],
  [("token closure of weighted rules", "*/normalizer.py")])

# ---------------------------------------------------------------- cache
p("C01", "A damaged cache entry is never used",
  "Whatever happened to the files of a cached grammar (bytes flipped, truncated, swapped, replaced, missing or extra files, edited manifest, other entry's files, short of a manifest forged to match them), constructing a normalizer over that cache directory succeeds and behaves exactly as one built without a cache, and leaves a valid entry that the next construction loads without rebuilding. "
  "An undamaged entry is loaded without rebuilding and gives identical results.",
  ["inputs", "fault_sequences"], "all modifications of the files of a cache entry",
  "cache tests corrupt a few bytes at fixed places; any byte of any file must be protected.",
  ["tn/cache.py", "tn/processor.py"], [("manifest with size and SHA-256 of each FST", "tn/cache.py CacheBundle.load"), ("quarantine of invalid bundles", "tn/cache.py remove_invalid")])

p("C02", "A crash while writing the cache leaves it usable",
  "If a process dies at any point while it builds, publishes, replaces or recovers a cache entry, or any file operation in that sequence fails, no later construction ever loads a partial or mixed entry: it constructs normally, gives the uncached results and ends with a valid entry. "
  "A complete entry that was being replaced is still intact or recoverable.",
  ["crash_points", "fault_sequences"], "every file-system operation of build/publish/recover as crash or error point",
  "tests inject a failure at two or three chosen calls.",
  ["tn/cache.py"], [("temp dir + fsync + rename publish, recover_residuals", "tn/cache.py")])

p("C03", "Concurrent constructions share one consistent cache entry",
  "When several processes or threads construct the same grammar over one cache directory at the same time, all succeed with the uncached behaviour, at most one of them builds when none asks for overwriting, and exactly one valid entry and no temporary residue remains. "
  "A lock that is held for too long makes construction fail with the lock-timeout error rather than proceed unlocked.",
  ["schedules"], "interleavings of concurrent builders, holders and overwriters",
  "tests run a fixed pair of processes.",
  ["tn/cache.py"], [("per-entry flock file", "tn/cache.py")])

p("C04", "Cache entries are keyed by everything that shapes the grammar",
  "Two constructions share a cache entry exactly when their grammar prefix, token order type, configuration options and rule/data sources agree: any change to an option value or to the content, name or set of the production rule and data files selects a different entry, while files that are not production sources (tests, bytecode, version stamp) do not. "
  "A normalizer never answers from a grammar built with other options or sources.",
  ["configurations", "histories"], "all option combinations, all edits of the source tree, all histories of constructions",
  "tests compare two or three fixed configurations.",
  ["tn/cache.py", "tn/processor.py"], [("production_source_fingerprint, config digest", "tn/cache.py")])

p("C05", "The cache never writes or follows links outside its root",
  "Constructing a grammar over a cache directory reads, creates, renames and deletes only below that directory: symbolic links and special files planted at any place of the entry path are rejected and never followed or waited for, foreign files and directories next to entries survive, and prefixes that are not one safe path component are rejected. "
  "With cache_dir=False nothing is read from or written to disk caches.",
  ["fault_sequences", "configurations"], "all placements of links/foreign files below the root, all prefix strings",
  "tests plant a link at a few chosen positions.",
  ["tn/cache.py"], [("O_NOFOLLOW directory-fd chain", "tn/cache.py"), ("safe component check", "tn/cache.py")])

# ---------------------------------------------------------------- CLI
p("L01", "The CLI prints tag and text for every input line, verbatim",
  "The tn and itn commands print, for every input line, exactly two lines - the tagged stream and the verbalized text - in input order, where a line is what is between line endings (LF, CRLF or CR only; all other characters, including leading and trailing spaces, belong to the line). "
  "The same text gives the same output through --text, --file and standard input.",
  ["inputs"], "all texts and line-ending mixes", "CLI tests use two or three fixed lines.",
  ["tn/cli.py"], [("run()", "tn/cli.py")])

p("L02", "CLI options reach the normalizer exactly as given",
  "For each direction and language, every documented option spelled --opt, --no-opt, --opt True or --opt False (hyphen or underscore) is passed to the normalizer with that value, options not given keep the documented default, and the order of arguments does not matter. "
  "Options the chosen language does not have, unknown languages, bad boolean values and conflicting inputs are rejected with a usage error before any grammar is built.",
  ["inputs", "configurations"], "all argument vectors", "CLI tests parse a few fixed argument vectors.",
  ["tn/cli.py", "tn/main.py", "itn/main.py"], [("argparse construction per language", "tn/cli.py")])

# ---------------------------------------------------------------- zh TN
p("Z01", "Chinese TN reads every number with its value",
  "Chinese TN reads an integer of up to twelve digits with its Chinese numeral value (百/千/万/亿 grouping, 零 for gaps), a decimal as integer reading + 点 + digits, a sign as 正/负/正负, and a percentage as 百分之 + number; no digit is lost, added or moved. "
  "Digit strings that are codes (leading zero, phone numbers, very long numbers) are read digit by digit.",
  ["inputs"], "all integers below 10^12, decimals, signs, percentages, long digit strings",
  TESTS + "about fifty numbers are tested.", ["tn/chinese/rules/cardinal.py", "tn/chinese/data/number"],
  [("Cardinal tagger/verbalizer", "tn/chinese/rules/cardinal.py")])

p("Z02", "Chinese TN reads every date and time correctly",
  "Chinese TN reads each calendar date written yyyy/m/d, yyyy-mm-dd, yyyy.mm.dd (and the other documented digit forms) as 年 digits + 月 + 日 numbers, and each clock time h:mm, h:mm:ss with or without am/pm as 点/分/秒 with 上午/下午, with the values of the fields preserved. "
  "Ranges of dates or times are read with 到 between the two.",
  ["inputs"], "all dates and times in the documented notations", TESTS + "about thirty dates/times are tested.",
  ["tn/chinese/rules/date.py", "tn/chinese/rules/time.py", "tn/chinese/data/date", "tn/chinese/data/time"],
  [("Date/Time rules", "tn/chinese/rules")])

p("Z03", "Chinese TN keeps value and unit of amounts and expressions",
  "Chinese TN reads currency amounts as number + currency name, measurements as number + unit name (a/b units as 每), fractions a/b as b分之a, scores as 比, ranges with 到 and arithmetic with the operator names, each with the number reading of its operands. "
  "Operands are never exchanged, lost or attached to another unit.",
  ["inputs"], "all numbers x all documented currencies, units and operators", TESTS + "one example per unit family.",
  ["tn/chinese/rules/money.py", "tn/chinese/rules/measure.py", "tn/chinese/rules/fraction.py", "tn/chinese/rules/math.py", "tn/chinese/rules/sport.py", "tn/chinese/rules/range.py"],
  [("Money/Measure/Fraction/Math/Sport/Range", "tn/chinese/rules")])

p("Z04", "Chinese TN options change exactly what they name",
  "remove_interjections, remove_erhua, traditional_to_simple, remove_puncts, full_to_half and tag_oov of Chinese TN each apply exactly their documented edit to the output (delete interjections; delete the erhua 儿; map traditional to simplified; delete punctuation; map full-width to half-width; wrap characters outside the charset in <oov>) and nothing else, in every combination.",
  ["inputs", "configurations"], "all texts x the 64 option combinations", "tests use default options except for one or two cases.",
  ["tn/chinese/rules/postprocessor.py", "tn/chinese/normalizer.py", "tn/chinese/data/char", "tn/chinese/data/default"], [("PostProcessor", "tn/chinese/rules/postprocessor.py")])

# ---------------------------------------------------------------- en TN
p("E01", "English TN reads every number with its value",
  "English TN spells integers of up to fifteen digits, decimals, ordinals (1st, 2nd ...) and simple fractions in English words that denote exactly that number, with or without thousands commas and signs. "
  "1000 to 2999 may be read as years, and integers of sixteen digits or more are read digit by digit.",
  ["inputs"], "all integers up to 10^15, decimals, ordinals, fractions", TESTS + "a few dozen numbers.",
  ["tn/english/rules/cardinal.py", "tn/english/rules/decimal.py", "tn/english/rules/ordinal.py", "tn/english/rules/fraction.py"], [("Cardinal/Decimal/Ordinal/Fraction", "tn/english/rules")])
p("E02", "English TN reads every date and time with its value",
  "English TN spells calendar dates (March 5, 2012; 5 March 2012; 2012-03-05; 03/05/2012 with the month first unless the first number exceeds 12) and clock times (10:05, 10:05 am) in words that denote exactly the same day, month, year, hour, minute and am/pm part.",
  ["inputs"], "all dates and times in the documented notations", TESTS + "a few dozen dates and times.",
  ["tn/english/rules/date.py", "tn/english/rules/time.py"], [("Date/Time", "tn/english/rules")])
p("E03", "English TN keeps value and unit of amounts",
  "English TN spells currency amounts and measurements with the number's words and the (singular or plural) name of exactly that currency or unit, cents included.",
  ["inputs"], "all numbers x documented currencies and units", TESTS + "one example per unit family.",
  ["tn/english/rules/money.py", "tn/english/rules/measure.py"], [("Money/Measure", "tn/english/rules")])
p("E04", "English TN spells codes, addresses and phone numbers losslessly",
  "English TN reads e-mail addresses, URLs, telephone numbers and serial codes so that the original characters can be recovered from the spoken words in order; a run of digits may be read as one number, in pieces or digit by digit.",
  ["inputs"], "all addresses/phone numbers of the documented shapes", TESTS + "a dozen addresses.",
  ["tn/english/rules/electronic.py", "tn/english/rules/telephone.py", "tn/english/rules/serial.py"], [("Electronic/Telephone/Serial", "tn/english/rules")])

# ---------------------------------------------------------------- ja TN
p("J01", "Japanese TN reads every number with its value",
  "Japanese TN reads integers (with or without commas), decimals, signs, percentages, fractions and digit strings with their Japanese numeral value.",
  ["inputs"], "all integers below 10^8 and multiples, decimals, percentages, fractions", TESTS + "a few dozen numbers.",
  ["tn/japanese/rules/cardinal.py", "tn/japanese/rules/fraction.py"], [("Cardinal/Fraction", "tn/japanese/rules")])
p("J02", "Japanese TN reads dates, times, amounts and options correctly",
  "Japanese TN reads dates, times, money, measures, scores and ranges with the field values preserved and in Japanese word order, and its options apply exactly their documented edit.",
  ["inputs", "configurations"], "all dates/times/amounts; option combinations", TESTS + "a few dozen expressions.",
  ["tn/japanese/rules"], [("Date/Time/Money/Measure/Sport/PostProcessor", "tn/japanese/rules")])

# ---------------------------------------------------------------- ITN
p("I01", "Chinese ITN writes every spoken number with its value",
  "Chinese ITN writes a spoken integer, decimal, percentage or signed number as the digits of exactly that value, and undoes Chinese TN on integers.",
  ["inputs", "configurations"], "all numerals up to 亿 x options", TESTS + "a few dozen numerals.",
  ["itn/chinese/rules/cardinal.py"], [("Cardinal", "itn/chinese/rules/cardinal.py")])
p("I02", "Chinese ITN writes dates, times and amounts with their values",
  "Chinese ITN writes spoken dates, times, money, measures, fractions and formulas in digits with exactly the spoken values.",
  ["inputs"], "all dates/times/amounts", TESTS + "a few dozen expressions.",
  ["itn/chinese/rules"], [("Date/Time/Money/Measure/Fraction/Math", "itn/chinese/rules")])
p("I03", "ITN options change exactly what they name",
  "enable_standalone_number, enable_0_to_9, enable_million, remove_interjections and full_to_half of Chinese and Japanese ITN each change exactly the documented expressions and leave everything else as without the option.",
  ["inputs", "configurations"], "all texts x all option combinations", "tests use a few combinations.",
  ["itn/chinese/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py"], [("rule selection by option", "itn/*/inverse_normalizer.py")])
p("I04", "English ITN writes spoken numbers with their value",
  "English ITN writes spoken cardinals, ordinals, decimals, money and measures in digits with exactly the spoken value and unit.",
  ["inputs"], "all number phrases", TESTS + "a few hundred phrases.",
  ["itn/english/rules"], [("Cardinal/Ordinal/Decimal/Money/Measure", "itn/english/rules")])
p("I05", "English ITN writes dates, times, phones and addresses losslessly",
  "English ITN writes spoken dates, times, telephone numbers and e-mail/URL spellings in written form with exactly the spoken values.",
  ["inputs"], "all phrases of the documented shapes", TESTS + "a few hundred phrases.",
  ["itn/english/rules"], [("Date/Time/Telephone/Electronic", "itn/english/rules")])
p("I06", "Japanese ITN writes spoken numbers with their value",
  "Japanese ITN writes spoken numbers, dates, times, money, measures and fractions in digits with exactly the spoken value.",
  ["inputs"], "all numerals and expressions", TESTS + "a few dozen expressions.",
  ["itn/japanese/rules"], [("rules", "itn/japanese/rules")])

# ---------------------------------------------------------------- runtime
p("R01", "The C++ runtime parses and reorders tokens like Python",
  "For every token stream that a Python pipeline's tagger produces, the C++ runtime's token parser yields, for the same language and direction, the same reordered stream as the Python token parser, so both verbalize the same string.",
  ["inputs"], "all token streams of all six pipelines", "the C++ tests check a few literal streams.",
  ["runtime/processor/wetext_token_parser.cc", "tn/token_parser.py"], [("TokenParser::Reorder", "runtime/processor/wetext_token_parser.cc")])

# ---------------------------------------------------------------- R02 and the final wording of the language properties
p("R02", "The C++ runtime normalizes as Python does, through its C interface",
  "The C++ Processor, through its C interface, applies the tagger of the language and direction named by its file names to exactly the text it is given, reorders the tagged tokens as Python does, "
  "applies the verbalizer to them and returns its output complete and unchanged (NUL padding removed); tag and verbalize are the two halves of normalize; a missing processor or text gives a null result; every history of "
  "create, call and destroy is free of memory errors. Its UTF-8 helpers split a string into its characters, count them, trim ASCII white space and split by a delimiter without losing a byte.",
  ["inputs", "histories"], "all call histories over all six pipelines, all UTF-8 strings",
  "the C++ tests (not run here: they need downloads) check a few literal strings, and nothing exercises the C interface.",
  ["runtime/processor/wetext_processor.cc", "runtime/processor/wetext_processor_c_api.cc", "runtime/utils/wetext_string.cc"],
  [("Processor::Normalize", "runtime/processor/wetext_processor.cc"), ("wetext_normalize", "runtime/processor/wetext_processor_c_api.cc"),
   ("SplitUTF8StringToChars", "runtime/utils/wetext_string.cc")])

FINAL = {
    "R01": ("For every token stream that a Python pipeline's tagger produces, the C++ runtime's token parser yields, for the same language and direction, the same reordered stream as the Python token parser (fields in the "
            "canonical order of that direction, further fields after them, values and escapes kept, preserve_order respected), so both verbalize the same string; a damaged stream that Python rejects is rejected with an "
            "exception, never with a memory error.", "all token streams of all six pipelines, and damaged streams"),
    "Z01": ("Chinese TN reads an integer of up to twelve digits with its Chinese numeral value (百/千/万/亿 grouping, 零 for gaps), a decimal as integer reading + 点 + digits, a sign as 正/负/正负, and a percentage as 百分之 + "
            "number; no digit is lost, added or moved. Digit strings that are codes (leading zero, eleven-digit phone numbers, service numbers, more than twelve digits) are read digit by digit, possibly in pieces. Decimals "
            "that are also dates (2024.05, 3.14) may be read as dates.", "all integers below 10^12, decimals, signs, percentages, long digit strings, alone or inside a sentence"),
    "Z02": ("Chinese TN reads each calendar date written yyyy/m/d, yyyy-mm-dd, yyyy.mm.dd (and the other documented digit forms) as 年 digits + 月 + 日 numbers, and each clock time h:mm, h:mm:ss (hours 1 to 24, or two digits) "
            "with or without am/pm as 点/分/秒 with 上午/下午, with the values of the fields preserved. Ranges of dates or times are read with 到 between the two.", "all dates and times in the documented notations"),
    "Z03": ("Chinese TN reads currency amounts as number + currency name, measurements as number + unit name (a/b units as 每), fractions a/b as b分之a, scores as 比, ranges with 到 and arithmetic with the operator names, "
            "each with the number reading of its operands. Operands are never exchanged, lost or attached to another unit. (Amounts without thousands commas; texts that are also dates, times or phone numbers are left out.)",
            "all numbers x all documented currencies, units and operators"),
    "J01": ("Japanese TN reads integers (with or without commas), decimals, signs, percentages, fractions and digit strings with their Japanese numeral value; nine or more digits, leading zeros and phone shapes may be read "
            "digit by digit, with no digit lost, added or moved.", "all integers below 10^8 and multiples, decimals, percentages, fractions"),
    "J02": ("Japanese TN reads dates, times, money, measures, scores, ranges and arithmetic with the field values preserved and in Japanese word order, and its options apply exactly their documented edit.",
            "all dates/times/amounts; option combinations"),
    "I01": ("Chinese ITN writes a spoken integer (零 for gaps, with 万/亿 scales), decimal, percentage or signed number as digits of exactly that value (a scale word or a single digit may stay in words), and undoes Chinese TN on "
            "integers and decimals.", "all numerals up to 亿 and 兆 x options"),
    "I02": ("Chinese ITN writes spoken dates, times, money, measures, rates, ranges, percentages, fractions, plates, train numbers, approximate numbers and formulas in digits with exactly the spoken values, units and order. "
            "A single digit with a unit or currency may stay in words when enable_0_to_9 is off.", "all dates/times/amounts"),
    "I03": ("enable_standalone_number, enable_0_to_9, enable_million, remove_interjections and full_to_half of Chinese and Japanese ITN each change exactly the documented expressions and leave everything else as without the "
            "option: a sentence of separated expressions is written piece by piece as its options say.", "all texts x all option combinations"),
    "I04": ("English ITN writes spoken cardinals, ordinals, decimals, money and measures in digits with exactly the spoken value and unit. Zero to twelve alone may stay in words, and large round amounts may be written with "
            "million, billion or trillion.", "all number phrases"),
    "I05": ("English ITN writes spoken dates, years, times, telephone and card numbers, IP addresses and e-mail/URL spellings in written form with exactly the spoken values, and words around them stay outside and keep their "
            "spaces. (Phrases with two meanings, such as ten thirty for a year, are left out.)", "all phrases of the documented shapes"),
    "I06": ("Japanese ITN writes spoken numbers (億 and 兆 kept as words, 万 too from a million on unless enable_million), decimals, percentages, digit strings, IP addresses, dates and date ranges, clock times, ordinals, units, "
            "currencies, fractions and arithmetic in digits with exactly the spoken value, sign, unit and order; numbers below ten may stay in words unless enable_0_to_9.", "all numerals and expressions x the number options"),
}
for d in P:
    if d["id"] in FINAL:
        d["statement"], d["quantifier"]["text"] = FINAL[d["id"]]


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w", encoding="utf-8") as f:
        for x in P:
            x["statement"] = x["statement"].strip()
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
