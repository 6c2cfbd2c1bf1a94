#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of the properties."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "number_parser/parser.py"
GEN = "number_parser_scripts/write_complete_language_data.py"


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, observe=observe, technique=technique, note=note)


SPELL = ("_build_number (accumulates a run)", "_check_validity (may the word continue the number)",
         "_check_large_multiplier (a larger scale multiplies everything before it)")
CARD = ("runtime monitor on the public API with a speller as oracle (round trip number -> words -> number), "
        "exhaustive small ranges plus structured random workloads")
CARDNOTE = ("Held on every number driven in the run (counts in the evidence); the vocabulary and spelling rules "
            "are a frozen, reviewed lexicon that is not read from the shipped tables. Not a proof for numbers "
            "that were not driven.")

PROPS = [
    prop("C01", "English: every spelled cardinal below 10^24 is read exactly",
         "For every integer 0 <= n < 10^24 and every usual English spelling of it (hyphens or spaces in "
         "twenty-one, optional 'and' inside the number, 'twelve hundred' style, a leading bare 'hundred' or "
         "'thousand', any letter case, any white space between the words), parse_number(text, 'en') returns "
         "exactly n as an int and parse(text, 'en') returns exactly str(n).",
         ["inputs"], "every n in the range and every spelling variant of it",
         "The tests read a few hundred listed numbers; the space is 10^24 numbers times their spellings, and "
         "errors hide at particular group shapes (zero groups, teens, boundaries between scales).",
         [P, "number_parser/data/en.py"], SPELL, ["parse_number", "parse"], CARD, CARDNOTE),
    prop("C02", "Spanish: every spelled cardinal below 10^84 is read exactly (long scale)",
         "For every integer 0 <= n < 10^84 and every usual Spanish spelling of it on the long scale (mil "
         "millones = 10^9, un billon = 10^12, singular and plural scale words, feminine hundreds, un/uno/una, "
         "veintiun/veintiuna, cien/ciento, 'y' between tens and units, with or without the accents), "
         "parse_number(text, 'es') returns exactly n and parse(text, 'es') returns exactly str(n). The "
         "further scale words of the language (millardo, gugol, vigintillon, centillon) multiply in the same "
         "way.",
         ["inputs"], "every n in the range and every spelling variant of it",
         "Tests cover some numbers up to a few scale words; the long scale up to 10^78 and its combinations "
         "with mil are out of their reach.",
         [P, "number_parser/data/es.py"], SPELL, ["parse_number", "parse"], CARD, CARDNOTE),
    prop("C03", "Hindi: every spelled cardinal below 10^13 is read exactly",
         "For every integer 0 <= n < 10^13 spelled in Hindi with the Indian scale (one word for each of 0-99, "
         "then sau, hazaar, laakh, karod, arab, kharab), parse_number(text, 'hi') returns exactly n and "
         "parse(text, 'hi') returns exactly str(n).",
         ["inputs"], "every n in the range, each of the hundred basic words, every mix of scales",
         "Tests list sample numbers; a hundred irregular words times six uneven scales cannot be listed.",
         [P, "number_parser/data/hi.py"], SPELL, ["parse_number", "parse"], CARD, CARDNOTE),
    prop("C04", "Russian: every spelled cardinal below 10^24 is read in any case form",
         "For every integer 0 <= n < 10^24 spelled in Russian with any of the supported inflected forms of "
         "each word (all grammatical cases and genders, with or without the leading 'one' before a scale "
         "word), parse_number(text, 'ru') returns exactly n and parse(text, 'ru') returns exactly str(n).",
         ["inputs"], "every n in the range, every combination of inflected forms",
         "About 200 inflected forms combine freely; tests take a handful of combinations.",
         [P, "number_parser/data/ru.py"], SPELL, ["parse_number", "parse"], CARD, CARDNOTE),
    prop("C05", "Ukrainian: every spelled cardinal below 10^129 is read in any form",
         "For every integer 0 <= n < 10^129 spelled in Ukrainian with any of the supported forms of each word "
         "and any of the apostrophes ', \u2019, \u02bc, parse_number(text, 'uk') returns exactly n and "
         "parse(text, 'uk') returns exactly str(n).",
         ["inputs"], "every n in the range, every form, every apostrophe",
         "Forty-two scale words up to 10^126 with several forms and three apostrophes each; tests sample a few.",
         [P, "number_parser/data/uk.py"], SPELL, ["parse_number", "parse"], CARD, CARDNOTE),
    prop("C06", "English ordinals below 10^24 are read exactly by parse_ordinal",
         "For every integer 0 <= n < 10^24 and every usual English spelling of its ordinal (last word in "
         "ordinal form: first, twelfth, twentieth, hundredth, millionth ...), parse_ordinal(text, 'en') returns "
         "exactly n; it also reads the cardinal spelling of n as n.",
         ["inputs"], "every n and spelling", "Tests list ordinals of small numbers; the ending rules interact "
         "with every number word and position.",
         [P], ("_apply_cardinal_conversion (ordinal word to cardinal word)",) + SPELL, ["parse_ordinal"],
         CARD, CARDNOTE),
    prop("C07", "Fractions are read exactly, unreduced, or not at all",
         "For English numbers a and b (in words of any spelling or in digits) separated by '/', 'over', 'by' or "
         "'divided by' in any letter case and spacing, parse_fraction returns exactly the string 'a/b' in digits, "
         "not reduced. It returns None when there is no separator, when there are two, or when either side is "
         "not exactly one number.",
         ["inputs"], "all pairs of numbers, separators, spacings, and malformed texts",
         "Tests list some pairs; the product of two numbers and a separator and all malformed texts are unbounded.",
         [P], ("parse_fraction (splits at the first separator found, reads both sides)",), ["parse_fraction"],
         "runtime monitor with constructed expected results (round trip and rejection oracle)",
         "Held on every text driven; zero denominators are not specified and not driven."),
    prop("C08", "No text makes any entry point fail, hang or return another type",
         "For every text (any Unicode, any length; digit runs up to 4300 digits), every entry point and each "
         "of the five languages or automatic detection, the call ends without an exception; parse returns a "
         "str, parse_number and parse_ordinal a non-negative int or None, parse_fraction None or a string of "
         "the form digits/digits.",
         ["inputs"], "all texts x 4 entry points x 6 language choices",
         "Tests drive well-formed texts; hostile and accidental input is unbounded.",
         [P], ("parse_number guards its int() conversion", "_tokenize splits any text"),
         list(("parse", "parse_number", "parse_ordinal", "parse_fraction")),
         "fuzzing monitor (type, exception and hang watch) with dictionary mined from the code",
         "Held on every text driven. Longer digit runs hit CPython's own int/str limit and are out of scope."),
    prop("C09", "Digit strings are read by value and left alone in text",
         "A text made of 1-4300 decimal digits of any script, with any white space around it, is read by "
         "parse_number as its value in every language; parse leaves it as it is, and digits beside number words "
         "are never merged with them (parse keeps both, parse_number and parse_ordinal give None). Numeric "
         "characters that are not decimal digits (superscripts, fractions, Roman or CJK numerals) and signed, "
         "grouped or decimal literals give None and come back unchanged from parse.",
         ["inputs"], "all digit strings of all scripts, paddings and literals",
         "Tests use a few ASCII digits.", [P], ("parse_number's digit shortcut",),
         ["parse_number", "parse", "parse_ordinal"],
         "runtime monitor with Unicode's decimal values as oracle, exhaustive over digit and numeric characters",
         "Exhaustive over single digit and numeric characters of the Unicode version of this Python; sampled above."),
    prop("C10", "What is not exactly one number is rejected",
         "parse_number and parse_ordinal return None, in each language and with detection, for every text that "
         "is not exactly one number: a number with another word, digits or punctuation before, inside or after "
         "it, two numbers, a leading or lone conjunction, another language's number words or conjunctions, glued "
         "or misspelt number words, and (parse_number only) ordinals.",
         ["inputs"], "all texts that are not one number",
         "Tests try a few invalid strings; the complement of the accepted texts is unbounded.",
         [P], ("parse_number's check that every token is a number word or an inner conjunction",),
         ["parse_number", "parse_ordinal"],
         "runtime monitor over constructed non-numbers (rejection oracle from a frozen lexicon)",
         "Held on every text driven. Texts with stray apostrophes or combining marks are not judged."),
    prop("C11", "Text without number words comes back unchanged",
         "parse returns a text that holds no number word of its language exactly as given, character for "
         "character and with its own spacing, apart from white space at both ends and soft hyphens: words that "
         "merely contain, extend or glue number words, conjunctions, digits, other languages' numbers and (in "
         "languages other than English) English ordinals are all left alone.",
         ["inputs"], "all number-free texts", "Tests check a few sentences; look-alike words and odd characters "
         "are unbounded.",
         [P], ("parse copies every other token", "_tokenize keeps every separator"), ["parse"],
         "runtime monitor: identity oracle on texts classified number-free by a frozen lexicon",
         "Held on every text driven."),
    prop("C12", "parse converts every number in a text in place and keeps the rest",
         "For any text that mixes numbers in words (any magnitude, one of the five languages) with other "
         "words, punctuation, digits and conjunctions, with at least another word or mark between two numbers "
         "unless the second cannot continue the first, parse replaces each number by its digits and keeps everything else, in order and unchanged; only "
         "white space directly after a number may shrink to one space, a hyphen between two numbers may be set "
         "off by spaces, and white space at the ends of the text is dropped.",
         ["inputs"], "all mixtures of numbers and other text",
         "Tests use short fixed sentences; positions, neighbours and spacing of numbers combine without bound.",
         [P], ("parse's token loop and its pending white space and conjunctions",), ["parse"],
         "runtime monitor: sentences built together with the pattern of their conversion",
         "Held on every sentence driven."),
    prop("C13", "Full stops and commas bound numbers and conversions compose",
         "A '.' or ',' always ends a number: in a list of numbers separated by them every value, separator and "
         "following white space is kept. For texts A and B without outer white space and a named language, "
         "parse(A + '. ' + B) equals parse(A) + '. ' + parse(B), and likewise for ',', for several marks, for "
         "other spacing after the mark and for one space before it.",
         ["inputs"], "all pairs and lists of texts", "Tests have a few comma lists.",
         [P], ("SENTENCE_SEPARATORS ends the current number and sentence",), ["parse"],
         "metamorphic monitor (conversion of a join against the join of conversions)",
         "Held on every pair driven."),
    prop("C14", "Neighbouring numbers stay apart",
         "When complete numbers follow one another and the first word of each cannot continue the one before (a "
         "unit or teen after a unit or teen, a ten after a ten, unit or teen, a teen after a ten, a hundred word "
         "after anything but a scale word), separated by white space or conjunctions, parse converts each to its "
         "own value in order and keeps the conjunctions, and parse_number and parse_ordinal return None.",
         ["inputs"], "all sequences of such numbers", "Tests list few sequences of small numbers.",
         [P], ("_check_validity",), ["parse", "parse_number", "parse_ordinal"],
         "runtime monitor: concatenations of independently spelled numbers",
         "Held on every sequence driven."),
    prop("C15", "Ambiguous runs of number words are split by one fixed rule",
         "A run of number words is read greedily: a scale word larger than the whole value so far (other than "
         "hundred) multiplies all of it, a smaller one multiplies the words since the last scale word, and one "
         "that is not larger than what it would multiply, or not smaller than the scale word that closed the "
         "previous part, starts a new number; so does a word that cannot follow the one before. A scale word on "
         "its own counts one, zero times a scale is zero, conjunctions inside a number are ignored and between "
         "two numbers kept. parse writes the resulting values in order and parse_number returns the value when "
         "there is exactly one, else None.",
         ["inputs"], "all sequences of number words of each language",
         "The README gives two examples and tests some dozens; the rule must hold for every sequence.",
         [P], SPELL, ["parse", "parse_number"],
         "reference-model monitor: independent reading grammar, exhaustive over short runs of representative words",
         "Exhaustive up to 5 (thorough 6) representative words per language, sampled above. Runs that put more "
         "than one scale word after a zero are not judged."),
    prop("C16", "Case, accents, Unicode form and spacing never change a reading",
         "Changing only letter case, composed or decomposed Unicode form, the presence of accents, added stress "
         "marks, Hindi nukta and nasal signs, soft hyphens inside number words, the kind of Ukrainian apostrophe "
         "or the amount and kind of white space between words does not change what parse_number, parse or (in "
         "English) parse_ordinal read.",
         ["inputs"], "all numbers and all such variants", "Tests spell each word one way.",
         [P], ("_normalize_token", "_tokenize"), ["parse", "parse_number", "parse_ordinal"],
         "metamorphic monitor (variant against original)", "Held on every variant driven."),
    prop("C17", "Automatic detection answers as the best matching language",
         "Without a language argument, a text of which one language recognises strictly more words (number "
         "words, counting repetitions) than any other gives, at every entry point, the same result as naming "
         "that language, so a plain number in any of the five languages gives its value. A text in which no "
         "language recognises a word comes back unchanged from parse (outer white space aside) and gives None "
         "elsewhere.",
         ["inputs"], "all texts with a strictly best language", "Tests detect a few sentences.",
         [P], ("_valid_tokens_by_language",), list(("parse", "parse_number", "parse_ordinal", "parse_fraction")),
         "differential monitor (detected against named language), winner counted from a frozen lexicon",
         "Held on every text driven; ties are not judged."),
    prop("C18", "Unsupported languages are refused with ValueError",
         "Naming any language other than en, es, hi, ru or uk (including languages whose tables are shipped, "
         "regional and upper-case variants, the empty string and module-like names) makes parse, parse_number, "
         "parse_ordinal and parse_fraction raise ValueError for a text with words to read, whatever was called "
         "before; the five supported languages keep working in between.",
         ["inputs", "histories"], "all language strings, at every entry point", "Tests try one code.",
         [P, "number_parser/data"], ("LanguageData.__init__ checks the code",),
         list(("parse", "parse_number", "parse_ordinal", "parse_fraction")),
         "runtime monitor, exhaustive over shipped tables and entry points",
         "Exhaustive over shipped codes; other strings sampled."),
    prop("C19", "Results never depend on other calls, earlier or concurrent",
         "The outcome of a call (value, type or exception) is a function of its arguments: it is the same as the "
         "first and only call of a fresh process, after any history of calls to any entry point in any language "
         "(failing ones included), however long, and while other threads call the library, from the very first "
         "concurrent calls on.",
         ["histories", "schedules"], "all histories and thread schedules",
         "Tests make single calls in one thread.",
         [P], ("per-call language data and local state only",),
         list(("parse", "parse_number", "parse_ordinal", "parse_fraction")),
         "history monitor: every call compared with the same call alone in a pristine forked process; threads with "
         "injected yields at monitored lines",
         "Held on the histories and interleavings observed (numbers in the evidence)."),
    prop("C20", "Regenerating the language data reproduces the shipped tables",
         "Running the data generator on the sources in the repository writes, for every language with spell-out "
         "rules, a table equal to the shipped one (words, values and types, conjunctions, scale), whatever the "
         "order of directory listings, locale, hash seed, working directory and previous contents of the target "
         "files, on a first and on a repeated run and after a run that was cut short; the sources are not modified.",
         ["inputs", "configurations", "histories"], "all environments and target states", "No test runs the generator.",
         [GEN, "number_parser_data", "number_parser/data"], ("write_complete_data",),
         ["files the generator writes"],
         "runtime monitor: runs of the real generator in scratch copies under perturbed environments, output compared",
         "Held for the environments driven, over all 83 shipped tables each time."),
    prop("C21", "The generator extracts exactly what rule files and supplements say",
         "For any CLDR-style source and supplement the generator writes: from spellout-cardinal and "
         "spellout-numbering rule sets (not cents, not ordinals) plain words as units (0-9) and direct numbers "
         "(10-99), words for d*10 and d*100 (d from 2 to 9) with a remainder as tens and hundreds, and words set "
         "off by a space after the factor, with all their plural forms, as scale words with the value 10^k, "
         "k >= 2, of their key. References, special keys and ERROR define no word, soft hyphens vanish, the "
         "supplement adds to and overrides the rules, conjunctions come sorted and the long-scale flag is copied "
         "when present; a source without spell-out rules writes no table and does not disturb the others.",
         ["inputs", "programs"], "all rule files", "No test runs the generator.",
         [GEN], ("_extract_information", "_add_base_words", "_add_compound_words", "_add_multiplier_words"),
         ["files the generator writes"],
         "runtime monitor: made-up languages generated together with the table they mean",
         "Held on every made-up language driven; notations outside the real data's are not judged."),
    prop("C22", "Every call takes time linear in the length of the text",
         "The time of each entry point grows in proportion to the number of words and characters of the text, "
         "whatever they are (numbers, conjunctions, ordinals, punctuation, white space, one endless word), with "
         "no quadratic or exponential behaviour.",
         ["inputs"], "all shapes of long texts", "Tests use short texts.",
         [P], ("one pass over the tokens",), list(("parse", "parse_number", "parse_ordinal", "parse_fraction")),
         "resource monitor: CPU time per token at two sizes 100 times apart, reproduced before it counts",
         "Held on the shapes driven up to 150,000 tokens."),
    prop("C23", "The entry points agree with one another",
         "In each language, when parse_number reads a text (without digits) as n, parse_ordinal reads it as n and "
         "parse turns it into n (followed by a trailing conjunction, if any); when a text holds no ordinal, "
         "parse_ordinal reads what parse_number reads or, like it, gives None; when parse turns a text without "
         "digits and ordinals into bare digits, parse_number reads that value. parse_fraction of two sides and "
         "one separator is exactly the two values parse_number gives for the sides, or None if either is None.",
         ["inputs"], "all texts", "Tests check each function on its own examples.",
         [P], ("parse_ordinal and parse_fraction call parse_number; parse builds numbers the same way",),
         list(("parse", "parse_number", "parse_ordinal", "parse_fraction")),
         "differential monitor between entry points", "Held on every text driven."),
    prop("C24", "Converting a converted text changes nothing",
         "For every text and named language, parse(parse(text)) equals parse(text): no number word is left "
         "behind and the digits written are never touched again.",
         ["inputs"], "all texts", "Tests never feed output back.", [P], ("parse",), ["parse"],
         "metamorphic monitor (idempotence) on fuzzed and mixed texts", "Held on every text driven."),
    prop("C25", "Ordinals in running English text are converted and end their number",
         "In an English text parse converts every ordinal of every magnitude in place like a cardinal, and the "
         "ordinal word ends its number: what follows starts a new number ('twenty third five' gives '23 5'). In "
         "the other four languages English ordinals stay as they are.",
         ["inputs"], "all texts with ordinals", "Tests convert some ordinals.",
         [P], ("parse ends the number at an ordinal token", "_is_ordinal_token"), ["parse"],
         "runtime monitor: sentences built together with the pattern of their conversion",
         "Held on every sentence driven."),
    prop("C26", "Calls and the import have no side effects on the process",
         "Importing the package and calling any entry point, the first calls and failing ones included, returns a "
         "value or raises and does nothing else: nothing is written to the standard output or error, no warning is "
         "issued, no file, socket, process or thread is opened or started and left (besides reading the package's own "
         "modules), and the state other code relies on is left as it was: working directory, environment, "
         "locale, import path and hooks, interpreter limits (recursion, digits, switch interval), trace and "
         "signal handlers, warning filters, logging configuration, random and decimal state, garbage collector "
         "settings, and the names of the standard library's modules.",
         ["inputs", "histories"], "all calls, from the first one of a process on",
         "Tests look at return values only.",
         [P, "number_parser/__init__.py"], ("pure functions of their arguments; tables imported on first use",),
         ["audit events, descriptors and process state around every call"],
         "runtime monitor: audit hook, redirected descriptors and state snapshots around every call and the import",
         "Held on every call observed; state outside the listed items is not watched."),
    prop("C27", "Memory does not grow with the number of calls, and is linear in the text",
         "A process that keeps calling the entry points, with ever new texts or with the same ones, in any language, "
         "failing calls included, does not keep memory for past calls: after any number of calls the memory "
         "in use stays bounded (bounded caches are fine). The peak memory of one call grows no faster than in "
         "proportion to the length of its text.",
         ["inputs", "histories"], "all histories of calls, all long texts",
         "Tests make a few short calls and measure nothing.",
         [P], ("per-call state only",), ["interpreter memory after and during calls"],
         "resource monitor: allocated blocks over tens of thousands of new texts; traced peak memory at two sizes",
         "Held on the runs observed; growth below 0.2 memory blocks for each call is not seen."),
    prop("C28", "Results do not depend on the environment of the process",
         "The outcome of a call (value, type, kind of exception), language detection and its ties included, is "
         "the same in every process: whatever the hash seed, locale and language settings, encodings, "
         "optimization level (-O, -OO), warning filters, debug modes, working directory, environment variables, "
         "command line, terminal, loaded modules, clock, platform name, closed output, random, decimal and garbage collector state, and depth of "
         "the caller's stack; however the package is installed (source folder of any name, zip archive, bytecode "
         "only, read-only for an unprivileged user, behind a link); and wherever the call is made (main or other "
         "thread, coroutine, signal handler, exit handler, finalizer, forked child, sub-interpreter), with the language by position or by "
         "keyword, and with the texts as str or as a subclass of it.",
         ["configurations", "inputs"], "all environments and texts",
         "Tests run in one environment.",
         [P], ("only the arguments and the shipped tables are read", "ties: first of a fixed list"),
         list(("parse", "parse_number", "parse_ordinal", "parse_fraction")),
         "differential monitor: the same calls in processes started in about 100 ways (also with every variable and file the package asks for), compared with a plain process",
         "Held on the environments and texts driven."),
    prop("C29", "An interrupted call reaches its caller and spoils no later call",
         "When an exception arrives from outside at any point of a call (KeyboardInterrupt, a cancellation or "
         "timeout raised in the thread, MemoryError), KeyboardInterrupt and cancellation reach the caller (the call returns "
         "no value), and every later call, the same one repeated included, has the outcome it has in a fresh "
         "process; no later call hangs.",
         ["crash_points", "histories"], "every point of every call, on first use and later",
         "Tests never interrupt a call.",
         [P], ("no state is kept between calls",), list(("parse", "parse_number", "parse_ordinal", "parse_fraction")),
         "fault-injecting monitor: exceptions raised at monitored lines, later calls compared with fresh processes",
         "Held at the points driven (distinct points in the evidence)."),
    prop("C30", "Conversion is local: nothing beyond an ordinary word matters",
         "For every named language, every ordinary word W (letters only, no number word or conjunction) and any texts "
         "A1 ... An, however many, long and far apart they are, parse of 'W A1 W A2 W ... An W' (single spaces) is put "
         "together from the conversions of 'W A1 W', 'W A2 W', ... 'W An W', each W kept once: how a number is converted "
         "depends only on the words around it up to the next ordinary word.",
         ["inputs"], "all sequences of texts and words, of any length",
         "Tests convert single sentences; nothing compares a text with its parts, at any size.",
         [P], ("an ordinary word ends the number and nothing else is carried along",), ["parse"],
         "metamorphic monitor: the conversion of a text compared with those of its parts",
         "Held on the texts driven (up to 4,000 parts and over a million characters)."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mechanism"]],
                    "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python check.py --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p["id"],
            "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "runtime monitoring: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": [],
        "notes": "No hooks in /repo: everything is observed at the public API, at the files the generator writes, "
                 "or through sys.monitoring from outside.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, ensure_ascii=False, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
