"""C08 totality, C09 digits, C18 unsupported languages, C22 linear cost."""

import gc
import re
import signal
import sys
import time

from .. import core, fuzz, lexicon as lx, words as wd

LANGS = list(lx.LANGS) + [None]


def well_typed(op, out):
    if out.kind != "ok":
        return "raised or hung"
    v = out.value
    if op == "parse":
        if type(v) is not str:
            return "not a str"
    elif op == "parse_fraction":
        if v is not None and not (type(v) is str and re.fullmatch(r"[0-9]+/[0-9]+", v)):
            return "neither None nor 'a/b'"
    elif v is not None and not (type(v) is int and v >= 0):
        return "neither None nor a non-negative int"
    return None


class C08(core.Prop):
    id = "C08"
    rule = ("Texts: random Unicode of many blocks (lone surrogates and controls included), soups of "
            "number words, conjunctions, ordinals, digits of every script, punctuation and literals "
            "of the code, mutated words, repetitions, long texts; every entry point in every language "
            "and with detection. Non-trivial: a distinct text with a visible character.")
    required = ("text", "char", "empty", "long", "word-pair")

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 12
        for i, t in enumerate(["", " ", "\n", "\xad", " \xad ", "\u3000", "\x1c", "\x1f", "'", "’", "-",
                               ".", ",", "..", "- -", "\u0301", " \u0301", "and", "y", "/", "over",
                               "by", "divided by", "\x00", "\ud800", "\U0010ffff"]):
            if i % nshards == shard:
                for lang in LANGS:
                    yield {"k": "empty", "text": t, "lang": lang}
        step = 17 if tier == "quick" else 1
        start = (rng.randrange(step) // nshards) * nshards + shard
        for c in range(start, 0x30000 if tier == "quick" else sys.maxunicode + 1, step * nshards):
            ch = chr(c)
            yield {"k": "char", "text": rng.choice([ch, "one" + ch, "one " + ch + " two", ch + "five"]),
                   "lang": rng.choice(LANGS)}
        for c in fuzz.NUMERIC_NOT_DECIMAL[shard::nshards]:
            yield {"k": "char", "text": c, "lang": rng.choice(LANGS)}
        for lang in lx.LANGS:
            pool = lx.L[lang].words + wd.SKIPS[lang]
            pairs = [(a, b) for a in pool for b in pool]
            if len(pairs) > 1500 * scale:
                pairs = rng.sample(pairs, 1500 * scale)
            for i, (a, b) in enumerate(pairs):
                if i % nshards == shard:
                    yield {"k": "word-pair", "text": a + " " + b, "lang": lang}
        for _ in range(30000 * scale // nshards):
            lang = rng.choice(LANGS)
            yield {"k": "text", "text": fuzz.text(rng, lang), "lang": lang}
        for _ in range(240 * scale // nshards):
            lang = rng.choice(LANGS)
            t = fuzz.soup(rng, rng.randint(100, 600), lang)
            if rng.random() < 0.3:
                t = (fuzz.token(rng, lang) + rng.choice([" ", "", "-"])) * rng.randint(500, 1500)
            if fuzz.max_digit_run(t.replace(" ", "")) > 4000:
                t = t[:4000]
            yield {"k": "long", "text": t, "lang": lang}

    def judge(self, case, api):
        text, lang = case["text"], case["lang"]
        for op in core.OPS:
            out = api.call(op, text, lang)
            why = well_typed(op, out)
            if why:
                return "%s(%r, %r) is %r: %s" % (op, text[:400], lang, out, why)
        return None

    def nontrivial(self, case):
        return bool(case["text"].strip())


class C09(core.Prop):
    id = "C09"
    rule = ("Strings of 1-4300 decimal digits of every script Unicode knows (single, mixed, leading "
            "zeros), surrounded by any white space: parse_number is their value in every language and "
            "with detection, parse leaves them as they are, beside number words they stay apart; every "
            "numeric character that is not a decimal digit and every signed, grouped or fractional "
            "literal gives None. Non-trivial: everything but one ASCII digit.")
    required = ("every-digit", "string", "padded", "long", "beside-words", "not-decimal", "literal")

    def digits(self, rng, n):
        k = rng.random()
        if k < 0.4:
            return "".join(rng.choice("0123456789") for _ in range(n))
        if k < 0.85:
            base = rng.choice(fuzz.DIGIT_SCRIPTS)
            return "".join(chr(base + rng.randrange(10)) for _ in range(n))
        return "".join(rng.choice(fuzz.DIGITS) for _ in range(n))

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 15
        for i, c in enumerate(fuzz.DIGITS):
            if i % nshards == shard:
                yield {"k": "every-digit", "text": c, "pad": ["", ""], "lang": rng.choice(LANGS)}
        for i, c in enumerate(fuzz.NUMERIC_NOT_DECIMAL):
            if i % nshards == shard:
                yield {"k": "not-decimal", "text": rng.choice([c, c + c, "1" + c, c + "1", " " + c]),
                       "lang": rng.choice(LANGS)}
        for i, w in enumerate(fuzz.WHITESPACE):
            for lang in LANGS:
                if i % nshards == shard:
                    yield {"k": "padded", "text": self.digits(rng, 3), "pad": [w, w], "lang": lang}
        for i, c in enumerate(core.mined_constants()[0]):
            if i % nshards == shard:
                yield {"k": "string", "text": str(c), "pad": ["", ""], "lang": rng.choice(LANGS)}
        for n in range(shard, 2000 * scale, nshards):
            yield {"k": "string", "text": str(n), "pad": ["", ""], "lang": rng.choice(LANGS)}
        for _ in range(15000 * scale // nshards):
            lang = rng.choice(LANGS)
            k = rng.random()
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 18, 19, 20, 30, 60])
            if k < 0.4:
                pad = ["", ""]
                yield {"k": "string", "text": "0" * rng.choice([0, 0, 0, 1, 5]) + self.digits(rng, n),
                       "pad": pad, "lang": lang}
            elif k < 0.55:
                pad = ["".join(rng.choice(fuzz.WHITESPACE) for _ in range(rng.randint(0, 3)))
                       for _ in "ab"]
                yield {"k": "padded", "text": self.digits(rng, n), "pad": pad, "lang": lang}
            elif k < 0.57:
                yield {"k": "long", "text": self.digits(rng, rng.choice([100, 640, 1000, 4300])),
                       "pad": ["", ""], "lang": lang}
            elif k < 0.8:
                lang = rng.choice(lx.LANGS)
                m = lx.structured(rng, min(lx.limit(lang), 10**18), 3)
                yield {"k": "beside-words", "digits": self.digits(rng, n), "lang": lang, "n": m,
                       "word": lx.spell(lang, m, rng).text(), "order": rng.randrange(3)}
            else:
                d = self.digits(rng, n)
                e = self.digits(rng, rng.randint(1, 6))
                t = rng.choice(["-%s", "+%s", "−%s", "$%s", "#%s", "%s%%", "%sth", "%sst", "~%s", "(%s)",
                                "x%s", "%se", "0x%s", "%sk", "%sº", "№%s", "%s!", "%sj"])
                t = t % d if rng.random() < 0.6 else rng.choice(
                    ["%s.%s", "%s,%s", "%s_%s", "%s %s", "%s:%s", "%s-%s", "%se%s", "%s/%s", "%s+%s",
                     "%s\n%s", "%s\u00a0%s", "%s\u202f%s", "%s\u2009%s", "%s'%s", "%s’%s", "%s\u066c%s", "%s\u066b%s", "%s\u02d9%s",
                     "%s٬%s", "%s،%s", "%s·%s", "%s|%s", "%s;%s", "%s\u2007%s", "%s\u200b%s", "%s\u2060%s", "%s\u2044%s", "%s\uff0c%s",
                     "%s\uff0e%s", "%s~%s", "%s–%s", "%sx%s", "%s×%s", "%s*%s", "%s^%s", "%s=%s", "%s %s %s"]).replace(
                         "%s %s %s", "%s %s 000") % (d, e)
                yield {"k": "literal", "text": t, "lang": lang}

    def judge(self, case, api):
        lang, k = case["lang"], case["k"]
        if k in ("literal", "not-decimal"):
            for op in ("parse_number", "parse_ordinal"):
                got = api.call(op, case["text"], lang)
                if not got.is_(None):
                    return "%s(%r, %r) is %r, not None" % (op, case["text"], lang, got)
            got = api.parse(case["text"], lang)
            if not got.is_(case["text"].strip()):
                return "parse(%r, %r) is %r: the text holds no number word" % (
                    case["text"], lang, got)
            return None
        if k == "beside-words":
            d, w, n = case["digits"], case["word"], str(case["n"])
            text, want = [(d + " " + w, d + " " + n), (w + " " + d, n + " " + d),
                          (d + " " + w + " " + d, d + " " + n + " " + d)][case["order"]]
            got = api.parse(text, lang)
            if not got.is_(want):
                return "parse(%r, %r) is %r, not %r" % (text, lang, got, want)
            for op in ("parse_number", "parse_ordinal"):
                got = api.call(op, text, lang)
                if not got.is_(None):
                    return "%s(%r, %r) is %r, not None" % (op, text, lang, got)
            return None
        text = case["pad"][0] + case["text"] + case["pad"][1]
        want = int("".join(str(fuzz.unicodedata.decimal(c)) for c in case["text"]))
        got = api.number(text, lang)
        if not got.is_(want):
            return "parse_number(%r, %r) is %r, not %d" % (text, lang, got, want)
        got = api.parse(text, lang)
        if not got.is_(case["text"]):
            return "parse(%r, %r) is %r, not the digits unchanged" % (text, lang, got)
        if all(p.strip(" ") == "" for p in case["pad"]):
            got = api.ordinal(text, lang)
            if not got.is_(want):
                return "parse_ordinal(%r, %r) is %r, not %d" % (text, lang, got, want)
        return None

    def nontrivial(self, case):
        return not (case["k"] == "string" and len(case["text"]) == 1)


class C18(core.Prop):
    id = "C18"
    rule = ("Language codes that are not en, es, hi, ru or uk (every table shipped without support, case "
            "and region variants, module and path names, random strings) with texts holding words, at "
            "every entry point, interleaved with calls in supported languages. Non-trivial: distinct "
            "(code, text, entry point).")
    required = ("shipped", "variant", "random", "supported")

    def codes(self):
        import os

        shipped = sorted(
            n[:-3] for n in os.listdir(os.path.join(core.REPO, "number_parser", "data"))
            if n.endswith(".py") and n != "__init__.py" and n[:-3] not in lx.LANGS)
        raw = sorted(
            n[:-5] for n in os.listdir(
                os.path.join(core.REPO, "number_parser_data", "raw_cldr_translation_data"))
            if n.endswith(".json") and n[:-5] not in lx.LANGS)
        variants = ["", " ", "EN", "En", " en", "en ", "en\n", "eng", "english", "English", "e", "n", "e,n",
                    "en-US", "en_US", "en-GB", "en_US.UTF-8", "es-ES", "es_MX", "es-419", "ES", "hi-IN",
                    "HI", "ru-RU", "RU", "ru_RU", "uk-UA", "UK", "ua", "gb", "us", "sp", "spa", "hin",
                    "rus", "ukr", "en.", ".en", "en/", "./en", "../data/en", "en.info", "__init__", "os",
                    "sys", "number_parser", "number_parser.data.en", "data.en", "root", "None", "none",
                    "auto", "*", "xx", "zz", "x", "0", "en,es", "en es", "enes", "en\x00", "ｅｎ", "еn",
                    "\u0435n", "default", "null", "en-", "-en"]
        return shipped, raw, variants

    def cases(self, rng, tier, shard, nshards):
        shipped, raw, variants = self.codes()
        scale = 1 if tier == "quick" else 12
        i = 0
        for group, codes in (("shipped", shipped + raw), ("variant", variants)):
            for code in codes:
                for op in core.OPS:
                    for _ in range(4):
                        i += 1
                        if i % nshards == shard:
                            yield {"k": group, "lang": code, "op": op, "text": self.text(rng)}
        for _ in range(4000 * scale // nshards):
            k = rng.random()
            if k < 0.3:
                lang = rng.choice(lx.LANGS)
                n = lx.structured(rng, min(lx.limit(lang), 10**9))
                yield {"k": "supported", "lang": lang, "op": rng.choice(["parse", "parse_number"]),
                       "n": n, "text": lx.spell(lang, n, rng).text()}
            else:
                code = "".join(rng.choice("abcdefghijklmnopqrstuvwxyzENSRUHI-_ ./0")
                               for _ in range(rng.randint(1, 6)))
                if code in lx.LANGS:
                    continue
                if k < 0.6:
                    code = rng.choice(shipped)
                yield {"k": "random", "lang": code, "op": rng.choice(core.OPS), "text": self.text(rng)}

    def text(self, rng):
        k = rng.random()
        if k < 0.3:
            return "two over five"
        if k < 0.4:
            return "one"
        if k < 0.5:
            return "the cows"
        if k < 0.6:
            return "первый два"
        lang = rng.choice(lx.LANGS)
        return (lx.spell(lang, rng.randint(0, 5000), rng).text() + " " + wd.filler(rng, lang) + "/ "
                + lx.spell(lang, rng.randint(0, 5000), rng).text())

    def judge(self, case, api):
        text, lang, op = case["text"], case["lang"], case["op"]
        if op == "parse_fraction" and "over" not in text:
            text = "one over " + text
        got = api.call(op, text, lang)
        if case["k"] == "supported":
            want = case["n"] if op == "parse_number" else str(case["n"])
            if not got.is_(want):
                return "%s(%r, %r) is %r, not %r" % (op, text, lang, got, want)
            return None
        if not got.raised("ValueError"):
            return "%s(%r, language=%r) is %r, not a ValueError" % (op, text, lang, got)
        return None


class Budget(BaseException):
    pass


class C22(core.Prop):
    id = "C22"
    hang_guard = False
    min_evaluations = 20
    rule = ("Texts of n and 100n tokens of the same shape (number runs, one endless number, conjunctions, "
            "sentences, punctuation, ordinals, white space, glued text, apostrophes, digits, one character over and "
            "over between words, random cycles of parts), every entry point: CPU time per token of the long text against the slower of two measurements of the "
            "short one; both calls must return. Non-trivial: every case.")
    required = ("shape", "every")
    assumptions = ("CPU time of the process is used; a slowdown counts only when it is reproduced "
                   "five times with a factor of 3 or more over linear",)

    def __init__(self):
        self.worst = 0

    def extra(self):
        return {"max_cost_per_token_of_long_over_short_text": round(self.worst, 2)}

    SHAPES = ("divided", "divided-spaces", "stops", "spaced-stops", "expanding", "boundary-skips", "scales-up",
              "letters", "units", "mixed", "skips", "sentences", "filler", "punct", "spaces", "ordinals", "zeros",
              "apostrophes", "multipliers", "glued", "digits", "accents", "softhyphens", "number-skip",
              "number-space", "leading-skip", "slashes", "overs", "distinct",
              "distinct-numbers", "distinct-mixed")

    RUNS = " \t\n\r\x0b\x1c\x85\xa0\u2003\u2028-.,/!'’ʼ\"()_aяeyt1٣²½\xad\u0301\u200d\u200bा्ँ़éßİ日\U0001f600\ud800\x00"

    WHERE = ("inside", "numbers", "start", "end", "glued", "apart", "separator", "broken")
    SWEPT = 20

    def run_of(self, rng):
        return rng.choice(self.RUNS), rng.choice(self.WHERE)

    def make(self, shape, lang, rng, n):
        lex = lx.L[lang]
        skip = (wd.SKIPS[lang] or ["and"])[0]
        pick = rng.choice
        W = lex.words
        one = lex.forms("units", 1)[0]
        if shape == "units":
            return " ".join([one] * n)
        if shape == "mixed":
            return " ".join(pick(W) if rng.random() < 0.5 else pick(wd.FILLER[lang]) for _ in range(n))
        if shape == "skips":
            return one + (" " + skip) * n
        if shape == "divided":
            return "one" + " divided" * n + " two"
        if shape == "divided-spaces":
            return "one divided" + " " * n + "two"
        if shape == "stops":
            return "a." * n
        if shape == "spaced-stops":
            return one + " . , " * n + one
        if shape == "expanding":
            return "\u1e69\u0390\ufdfa" * (n // 3)
        if shape == "boundary-skips":
            return " ".join(one + " " + skip + " " + skip for _ in range(n // 2))
        if shape == "scales-up":
            up = sorted(set(lex.powers), key=lambda w: lex.powers[w])[:3]
            return " ".join(one + " " + w for _ in range(n // 6) for w in up)
        if shape == "letters":
            return "a y " * (n // 2)
        if shape == "leading-skip":
            return (skip + " ") * n + one
        if shape == "number-skip":
            return (one + " " + skip + " ") * (n // 2)
        if shape == "number-space":
            return one + " " * n + one
        if shape == "sentences":
            return " ".join(pick(W) + pick([".", ","]) for _ in range(n))
        if shape == "filler":
            return " ".join(pick(wd.FILLER[lang]) for _ in range(n))
        if shape == "punct":
            return "".join(pick(wd.PUNCT) for _ in range(n))
        if shape == "spaces":
            return " " * n
        if shape == "ordinals":
            return " ".join(pick(fuzz.ORDINALS) for _ in range(n))
        if shape == "zeros":
            return " ".join([lex.forms("units", 0)[0]] * n)
        if shape == "apostrophes":
            return "'".join([one] * n)
        if shape == "multipliers":
            return " ".join(pick(sorted(lex.powers)) for _ in range(n))
        if shape == "glued":
            return one * n
        if shape == "digits":
            return " ".join("12" for _ in range(n))
        if shape == "accents":
            return one + "\u0301" * n
        if shape == "softhyphens":
            return one + "\xad" * n
        if shape == "slashes":
            return one + " /" * n + " " + one
        if shape == "distinct":
            return " ".join("w%dx" % i for i in range(n))
        if shape == "distinct-numbers":
            small = [w for w in W if lex.cls[w] != "powers"]
            up = sorted(lex.powers, key=lambda w: lex.powers[w])
            return ", ".join(pick(small) + " " + pick(up) + " " + pick(small) for _ in range(n // 4))
        if shape == "distinct-mixed":
            return " ".join(pick(W) + pick(["", " ", ". ", "-"]) + str(i) + pick("abc.,") for i in range(n // 2))
        if shape == "overs":
            return " over ".join([one] * n)
        if shape.startswith(("run-", "every-")):
            # one character over and over, between words or at an end
            char, where = self.run_of(rng)
            if shape.startswith("every-"):
                code, where = shape.split("-")[1:]
                char = chr(int(code))
            middle = char * n
            return {"inside": "some" + middle + "words", "numbers": one + middle + one,
                    "start": middle + "words", "end": one + middle, "glued": (one + char) * (n // 2),
                    "apart": ("some" + char + " ") * (n // 2), "separator": "one over" + middle + "two",
                    "broken": ("x" + char * 30) * (n // 30)}[where]
        if shape.startswith("cycle-"):
            parts = [pick(["one", one, skip, " ", " ", "  ", "\n", ",", ".", "-", "/", " over ", "divided ", "by", "x",
                           "word ", "first", "th", "ieth", "'", "\xad", "\u0301", "7", pick(W), pick(sorted(lex.powers)),
                           " ", " "]) for _ in range(rng.randint(2, 5))]
            return "".join(parts) * (n // len(parts))
        raise KeyError(shape)

    def cases(self, rng, tier, shard, nshards):
        langs = list(lx.LANGS)
        i = 0
        rounds = 1 if tier == "quick" else 4
        for r in range(rounds):
            made = tuple("%s-%d" % (kind, j) for kind in ("run", "cycle") for j in range(24))
            for shape in self.SHAPES + made:
                for op in core.OPS:
                    i += 1
                    if i % nshards != shard:
                        continue
                    lang = langs[(i // nshards + r) % 5] if op != "parse_fraction" else "en"
                    detect = rng.random() < 0.2
                    yield {"k": "shape", "shape": shape, "op": op, "lang": lang, "detect": detect,
                           "n": 1500 * (r + 1), "seed": rng.randrange(10**6)}

        # every character at every place, in texts of middling length
        for r in range(rounds):
            for j, char in enumerate(self.RUNS):
                for k, where in enumerate(self.WHERE):
                    for op in ("parse", "parse_fraction" if where == "separator" or (j + k + r) % 4 == 0 else
                               ("parse_number", "parse_ordinal")[(j + k + r) % 2]):
                        i += 1
                        if i % nshards == shard:
                            lang = langs[(i // nshards + r) % 5] if op != "parse_fraction" else "en"
                            yield {"k": "every", "shape": "every-%d-%s" % (ord(char), where), "op": op, "lang": lang,
                                   "detect": False, "n": 1000 * (r + 1), "seed": 0, "factor": self.SWEPT}

    FACTOR = 100
    LIMIT = 3

    def judge(self, case, api):
        import random as _r

        lang = None if case["detect"] else case["lang"]
        op, n = case["op"], case["n"]
        factor = case.get("factor") or (self.FACTOR if not case["detect"] else self.FACTOR // 4)
        small = self.make(case["shape"], case["lang"], _r.Random(case["seed"]), n)
        what = "%s on %d tokens of shape %r (%s)" % (op, n * factor, case["shape"], lang)
        if self.bounded(api, op, small, lang, 60) is None:
            return "%s on %d tokens of shape %r (%s) used more than 60 s" % (op, n, case["shape"], lang)
        got = self.outcome
        if got.kind != "ok":
            return "%s on %d tokens of shape %r (%s): %r" % (op, n, case["shape"], lang, got)
        gc.collect()
        gc.disable()
        try:
            if case["k"] != "every" and self.cost(api, op, small, lang, 1) > 0.05:
                # slow already: a text of ten times the length first, or the answer takes too long
                why = self.grows(api, case, op, lang, small, n, 10, 0.3, what)
                if why:
                    return why
            return self.grows(api, case, op, lang, small, n, factor, 0.1 if case["k"] == "every" else 0.15, what)
        finally:
            gc.enable()

    def grows(self, api, case, op, lang, small, n, factor, least, what):
        import random as _r

        big = self.make(case["shape"], case["lang"], _r.Random(case["seed"]), n * factor)
        ratios = []
        before = self.cost(api, op, small, lang, 4)
        for attempt in range(5):
            budget = 20 + min(factor * 8 * before, 100)
            b = self.bounded(api, op, big, lang, budget)
            if b is None:
                return "%s used more than %.0f s of CPU; %d tokens took %.4f s" % (
                    what, budget, n, before)
            if self.outcome.kind != "ok":
                return "%s: %r" % (what, self.outcome)
            # the short text again: a machine that got slower in between is no growth
            after = self.cost(api, op, small, lang, 4)
            ratio = b / max(before, after, 1e-5) / factor
            before = after
            if b < least:
                return None
            self.worst = max(self.worst, ratio if not ratios else 0)
            if ratio < self.LIMIT:
                return None
            ratios.append(round(ratio, 1))
        return "%s costs %s times what linear growth from %d tokens allows (texts of %d times the length)" % (
            what, ratios, n, factor)

    def bounded(self, api, op, text, lang, budget):
        """CPU time of one call, or None when it exceeds the budget (also CPU time)."""

        def over(signum, frame):
            raise Budget()

        signal.signal(signal.SIGPROF, over)
        t = time.process_time()
        try:
            signal.setitimer(signal.ITIMER_PROF, budget)
            try:
                self.outcome = api.call(op, text, lang)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except Budget:
            return None
        return time.process_time() - t

    def cost(self, api, op, text, lang, repeat):
        best = None
        for _ in range(repeat):
            t = time.process_time()
            api.call(op, text, lang)
            t = time.process_time() - t
            best = t if best is None else min(best, t)
        return best
