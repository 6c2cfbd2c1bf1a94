"""C15 runs of number words, C17 detection, C23 agreement of the entry points, C24 idempotence."""

import itertools
import re

from .. import core, fuzz, lexicon as lx, model, words as wd
from .text import misspelt, C16, LANGS, UNIVERSAL, mixed, number

REPS = {
    "en": ["five", "twelve", "thirty", "hundred", "thousand", "million", "billion"],
    "es": ["cinco", "doce", "treinta", "doscientos", "mil", "millón", "billones"],
    "hi": ["पाँच", "बत्तीस", "सौ", "हज़ार", "लाख", "करोड़", "अरब"],
    "ru": ["пять", "двенадцать", "тридцать", "двести", "тысяч", "миллионов", "миллиард"],
    "uk": ["шість", "дванадцять", "тридцять", "двісті", "тисяч", "мільйонів", "мільярд"],
}


class C15(core.Prop):
    id = "C15"
    rule = ("Runs of number words in five languages: every sequence of up to 5 (thorough: 6) of 7 "
            "representative words, every two words, every pair of scale words behind units and behind each other, and "
            "random runs of 2-120 (some of 5,000) words of the whole vocabulary with conjunctions inside; compared with "
            "an independent reading grammar (which values, in which order). Non-trivial: two words or "
            "more.")
    required = ("enumerated", "two-words", "scales", "random", "conjunction", "zero", "long")

    def __init__(self):
        self.observed = {"numbers_read": 0, "runs_that_are_one_number": 0}

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 10
        depth = 5 if tier == "quick" else 6
        i = 0
        for lang in LANGS:
            for n in range(1, depth + 1):
                for seq in itertools.product(REPS[lang], repeat=n):
                    i += 1
                    if i % nshards == shard:
                        yield {"k": "enumerated", "lang": lang, "words": list(seq)}
            lex = lx.L[lang]
            powers = sorted(lex.powers, key=lambda w: (lex.powers[w], w))
            pairs = list(itertools.product(powers, repeat=2))
            if len(pairs) > 12000 * scale:
                pairs = rng.sample(pairs, 12000 * scale)
            for a, b in itertools.product(lex.words, repeat=2):
                i += 1
                if i % nshards == shard:
                    yield {"k": "two-words", "lang": lang, "words": [a, b]}
            small = [w for w in lex.words if lex.cls[w] != "powers" and lex.value[w]]
            for a, b in pairs:
                i += 1
                if i % nshards == shard:
                    s, t = rng.choice(small), rng.choice(small)
                    yield {"k": "scales", "lang": lang, "words": rng.choice([
                        [s, a, t, b], [s, a, b], [a, b], [a, t, b], [s, a, b, t]])}
            zeros = lex.forms("units", 0)
            for z in zeros:
                for p in powers:
                    i += 1
                    if i % nshards == shard:
                        yield {"k": "zero", "lang": lang, "words": [z, p]}
                        u = rng.choice(lex.forms("units", rng.randint(1, 9)))
                        yield {"k": "zero", "lang": lang, "words": [u, z]}
                        yield {"k": "zero", "lang": lang, "words": [z, u, p]}
                        yield {"k": "zero", "lang": lang, "words": [z, z]}
                        q = rng.choice(powers)
                        for s in wd.SKIPS[lang]:
                            yield {"k": "zero", "lang": lang, "words": rng.choice([
                                [z, s, p], [z, s, s, p], [u, s, z, p], [p, s, z], [z, p, s, q], [p, z, s, q]])}
        for _ in range(40000 * scale // nshards):
            lang = rng.choice(LANGS)
            lex = lx.L[lang]
            skips = wd.SKIPS[lang]
            long = rng.random() < 0.04
            n = rng.choice([80, 80, 80, 80, 80, 1300, 5000]) if long and rng.random() < 0.2 else rng.randint(
                40, 120) if long else rng.randint(2, rng.choice([4, 6, 10, 16]))
            words = []
            conj = False
            zeros = lex.forms("units", 0)
            ppow = rng.choice([0.2, 0.4, 0.6])
            pool = sorted(lex.powers)
            if rng.random() < 0.7:
                pool = [w for w in pool if lex.powers[w] <= 10**9]
            small = [w for w in lex.words if lex.cls[w] != "powers" and lex.value[w]]
            for _w in range(n):
                words.append(rng.choice(zeros) if rng.random() < 0.02 else
                             rng.choice(pool if rng.random() < ppow else small))
                if skips and rng.random() < 0.12:
                    words.append(rng.choice(skips))
                    conj = True
                    if rng.random() < 0.1:
                        words.append(rng.choice(skips))
            if rng.random() < 0.15:
                words[-1] = wd.recase(rng, words[-1], 1.0)
            yield {"k": "long" if long else "conjunction" if conj else "random", "lang": lang,
                   "words": words}

    def judge(self, case, api):
        lang, words = case["lang"], case["words"]
        skips = wd.SKIPS[lang]
        text = " ".join(words)
        items = model.read(lang, words, skips)
        pattern = ""
        values = [x for x in items if isinstance(x, int)]
        for a, x in enumerate(items):
            if a:
                pattern += r"\s*" if "-" in (x, items[a - 1]) else " "
            pattern += str(x) if isinstance(x, int) else re.escape(x)
        self.observed["numbers_read"] += len(values)
        got = api.parse(text, lang)
        if got.kind != "ok" or not model.matches(pattern, got.value):
            return "parse(%r, %r) is %r; the words read %s" % (text, lang, got, items)
        want = values[0] if len(values) == 1 else None
        self.observed["runs_that_are_one_number"] += want is not None
        got = api.number(text, lang)
        if not got.is_(want):
            return "parse_number(%r, %r) is %r, not %r (the words read %s)" % (
                text, lang, got, want, items)
        return None

    def extra(self):
        return self.observed

    def nontrivial(self, case):
        return len(case["words"]) > 1


_WORD = re.compile(r"[\w\u0300-\u036f\u0900-\u0963'’]+|-")


def counts(text):
    """Number words (ordinals included), and number words plus conjunctions, per language; both
    with apostrophes as part of words and (in languages other than Ukrainian) between them."""
    out = []
    tokens = _WORD.findall(text)
    for split in (False, True):
        pure, loose = {}, {}
        for lang in LANGS:
            lex = lx.L[lang]
            skips = {lx.plain(s) for s in lex.skip}
            words = tokens
            if split and lang != "uk":
                words = [p for t in tokens for p in re.split("['’]", t) if p]
            # an ordinal ending is only understood on the language's own words
            pure[lang] = sum(1 for t in words if lx.plain(t) not in skips and lx.numberish(t, lang))
            loose[lang] = pure[lang] + sum(1 for t in words if lx.plain(t) in skips)
        out += [pure, loose]
    return out


def winner(text):
    """The language that recognises strictly most words on every count, or None."""
    best = []
    for c in counts(text):
        top = max(c.values())
        langs = [lang for lang in LANGS if c[lang] == top]
        if top == 0 or len(langs) > 1:
            return None
        best.append(langs[0])
    return best[0] if len(set(best)) == 1 else None


class C17(core.Prop):
    id = "C17"
    rule = ("Texts without a language argument in which one language recognises strictly more words than "
            "any other (pure numbers of every magnitude, sentences, and mixtures with fewer words of other "
            "languages): every entry point answers as with that language named, and pure numbers give "
            "their value. Texts no language recognises come back unchanged, and give None. "
            "Non-trivial: distinct texts with a recognised word.")
    required = ("pure-en", "pure-es", "pure-hi", "pure-ru", "pure-uk", "sentence", "mixture", "none",
                "ordinal", "single", "close", "long", "fraction")

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 12
        for _ in range(1600 * scale // nshards):
            # the language of a fraction is the language of all of it
            lang = rng.choice(LANGS)
            other = rng.choice(LANGS)
            a, b = number(rng, lang)[0], number(rng, other if rng.random() < 0.7 else lang)[0]
            if rng.random() < 0.5:
                a, b = b, a
            t = a + rng.choice([" over ", " by ", "/", " / ", " divided by ", " OVER ", ". ", " x "]) + b
            if winner(t.replace("\xad", "")):
                yield {"k": "fraction", "text": t, "lang": winner(t.replace("\xad", ""))}
        for lang in LANGS:
            for i, w in enumerate(lx.L[lang].words):
                if i % nshards == shard and winner(w) == lang:
                    yield {"k": "single", "text": w, "n": lx.L[lang].value[w], "lang": lang}
        for _ in range(16 * scale // nshards):
            # large counts, a narrow margin
            lang, other = rng.sample(LANGS, 2)
            n = rng.choice([60, 130, 260, 520, 1100])
            a, b = rng.sample(lx.L[lang].words, 5), rng.sample(lx.L[other].words, 5)
            words = [rng.choice(a) for _ in range(n + rng.randint(1, 3))] + [rng.choice(b) for _ in range(n)]
            if rng.random() < 0.5:
                rng.shuffle(words)
            elif rng.random() < 0.5:
                words.reverse()
            t = " ".join(words)
            if winner(t) == lang:
                yield {"k": "long", "text": t, "lang": lang}
        for _ in range(160 * scale // nshards):
            # the deciding words come late, or far apart
            lang, other = rng.sample(LANGS, 2)
            n = rng.randint(1, 5) if rng.random() < 0.6 else 0
            words = [rng.choice(lx.L[other].words) for _ in range(n)] + ["#"] * rng.choice([40, 200, 2000])
            late = [rng.choice(lx.L[lang].words) for _ in range(n + rng.randint(1, 3))]
            if rng.random() < 0.4:
                for w in late:
                    words.insert(rng.randrange(len(words) + 1), w)
            else:
                words += late
            if rng.random() < 0.2:
                words.reverse()
            t = " ".join(rng.choice(UNIVERSAL) if w == "#" else w for w in words)
            if rng.random() < 0.3:
                t = t.replace(" ", rng.choice([". ", ", ", "\n"]))
            if winner(t) == lang:
                yield {"k": "long", "text": t, "lang": lang}
        made = 0
        while made < 9000 * scale // nshards:
            lang = rng.choice(LANGS)
            k = rng.random()
            if k < 0.35:
                t, n, s = number(rng, lang)
                while rng.random() < 0.35:
                    t = C16().variant(rng, lang, t, rng.choice(C16().kinds(lang)))
                if winner(t.replace("\xad", "")) == lang:
                    made += 1
                    yield {"k": "pure-" + lang, "text": t, "n": n, "lang": lang}
            elif k < 0.4:
                n = lx.structured(rng, 10**24)
                t = lx.spell_en(n, rng, ordinal=True).text()
                if winner(t) == "en":
                    made += 1
                    yield {"k": "ordinal", "text": t, "n": n, "lang": "en"}
            elif k < 0.6:
                t = mixed(rng, lang, rng.randint(2, 10)).source()
                if winner(t):
                    made += 1
                    yield {"k": "sentence", "text": t, "lang": winner(t)}
            elif k < 0.75:
                t, lang2 = self.mixture(rng, lang)
                if t:
                    made += 1
                    yield {"k": "mixture", "text": t, "lang": lang2}
            elif k < 0.92:
                # n+1 words of one language against n of another, in both orders
                other = rng.choice([c for c in LANGS if c != lang])
                n = rng.randint(1, 6)
                words = [rng.choice(lx.L[lang].words) for _ in range(n + 1)] + [
                    rng.choice(lx.L[other].words) for _ in range(n)]
                if rng.random() < 0.5:
                    rng.shuffle(words)
                elif rng.random() < 0.5:
                    words.reverse()
                words[:] = [w for x in words for w in
                            ([x, rng.choice(UNIVERSAL)] if rng.random() < 0.3 else [x])]
                t = " ".join(words)
                if rng.random() < 0.2:
                    t += " over " + rng.choice(lx.L[lang].words)
                if winner(t) == lang:
                    made += 1
                    yield {"k": "close", "text": t, "lang": lang}
            else:
                t = " ".join(rng.choice(UNIVERSAL + ["!", "1997", "Ωμέγα", "日本", "$"])
                             for _ in range(rng.randint(1, 8)))
                if not t.isdecimal():
                    made += 1
                    yield {"k": "none", "text": t, "lang": None}

    def mixture(self, rng, lang):
        words = []
        for _ in range(rng.randint(2, 12)):
            k = rng.random()
            if k < 0.45:
                words.append(rng.choice(lx.L[lang].words))
            elif k < 0.65:
                words.append(rng.choice(lx.L[rng.choice(LANGS)].words))
            elif k < 0.7:
                words.append(rng.choice(["and", "y"]))
            elif k < 0.75:
                words.append(rng.choice(fuzz.ORDINALS))
            else:
                words.append(wd.recase(rng, wd.filler(rng, lang), 0.1))
        t = wd.space(rng, 0.9).join(words)
        if rng.random() < 0.3:
            t = t.replace(" ", rng.choice([", ", ". ", "! "]), 1)
        return (t, winner(t)) if winner(t) else (None, None)

    def judge(self, case, api):
        text, lang = case["text"], case["lang"]
        if lang is None:
            want = {"parse": text, "parse_number": None, "parse_ordinal": None, "parse_fraction": None}
            for op in core.OPS:
                got = api.call(op, text, None)
                if not got.is_(want[op]):
                    return "%s(%r) is %r, not %r" % (op, text, got, want[op])
            return None
        for op in core.OPS:
            got, want = api.call(op, text, None), api.call(op, text, lang)
            if not got.same(want):
                return "%s(%r) is %r, but %r with language=%r, whose words it has most of (%s)" % (
                    op, text, got, want, lang, counts(text)[0])
        if "n" in case:
            ops = ["parse", "parse_ordinal"] + (["parse_number"] if case["k"] != "ordinal" else [])
            for op in ops:
                want = str(case["n"]) if op == "parse" else case["n"]
                got = api.call(op, text, None)
                if not got.is_(want):
                    return "%s(%r) is %r, not %r" % (op, text, got, want)
        return None


class C23(core.Prop):
    id = "C23"
    rule = ("Texts of number words, ordinals, conjunctions, other words, marks and white space (no digits, "
            "apostrophes or lone combining marks): when parse_number reads n, parse_ordinal reads n and "
            "parse gives n (and a trailing conjunction); without ordinals parse_ordinal reads what parse_number "
            "reads; when parse gives digits only, parse_number reads them; parse_fraction of two sides and a separator is the two parse_number readings. "
            "Non-trivial: distinct texts.")
    required = ("text", "fraction", "near")

    def __init__(self):
        self.observed = {"texts_that_are_a_number": 0, "fractions_read": 0, "texts_that_are_not": 0}

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 15
        for lang in LANGS:
            for w in misspelt(lang, shard, nshards):
                if not any(c in w for c in "'’ʼ"):
                    yield {"k": "near", "lang": lang, "text": rng.choice(
                        ["%s", "%s", "{} %s", "%s {}"]).replace("{}", rng.choice(lx.L[lang].words).replace("'", "").replace(
                            "’", "").replace("ʼ", "")) % w}
        for _ in range(24000 * scale // nshards):
            lang = rng.choice(LANGS)
            if rng.random() < 0.3:
                yield {"k": "fraction", "lang": lang, "a": self.text(rng, lang), "b": self.text(rng, lang),
                       "sep": rng.choice([" over ", " by ", " divided by ", "/", " / ", " OVER ",
                                          " Divided  By ", "\nby\n", " over\t"])}
            else:
                yield {"k": "text", "lang": lang, "text": self.text(rng, lang)}

    def text(self, rng, lang):
        k = rng.random()
        if k < 0.3:
            t = number(rng, lang)[0]
            if rng.random() < 0.3 and wd.SKIPS[lang]:
                a, b = rng.choice(wd.SKIPS[lang]), rng.choice(wd.SKIPS[lang])
                t = rng.choice([t + " " + a, a + " " + t, t + " " + a + " " + b, "%s %s %s" % (a, t, b), "%s %s %s" % (a, b, t),
                                t + "".join(" " + rng.choice(wd.SKIPS[lang]) for _ in range(rng.randint(2, 5)))])
            return t
        if k < 0.4:
            return rng.choice(["", " ", "\n", "-", "and", "y"])
        if k < 0.48:
            # a number of another language
            return number(rng, rng.choice(LANGS))[0].replace("'", "").replace("’", "").replace("ʼ", "")
        out = []
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            if k < 0.55:
                out.append(rng.choice(lx.L[lang].words))
            elif k < 0.6:
                out.append(rng.choice(lx.L[rng.choice(LANGS)].words))
            elif k < 0.75 and wd.SKIPS[lang]:
                out.append(rng.choice(wd.SKIPS[lang]))
            elif k < 0.85:
                w = rng.choice(UNIVERSAL)
                out.append(w)
            elif k < 0.9:
                out.append(rng.choice([".", ",", "!", ";"]))
            else:
                out.append(rng.choice(fuzz.ORDINALS))
            out.append(wd.space(rng, 0.85))
        return "".join(out)

    def judge(self, case, api):
        lang = case["lang"]
        if case["k"] == "fraction":
            a, b = api.number(case["a"], lang), api.number(case["b"], lang)
            text = case["a"] + case["sep"] + case["b"]
            got = api.fraction(text, lang)
            want = None
            if a.kind == b.kind == "ok" and a.value is not None and b.value is not None:
                want = "%d/%d" % (a.value, b.value)
                self.observed["fractions_read"] += 1
            if any(s in (case["a"] + " " + case["b"]).lower() for s in ("by", "over", "/")):
                want = None
            if not got.is_(want):
                return "parse_fraction(%r, %r) is %r; its sides read %r and %r" % (text, lang, got, a, b)
            return None
        text = case["text"]
        n = api.number(text, lang)
        o = api.ordinal(text, lang)
        p = api.parse(text, lang)
        if "exc" in (n.kind, o.kind, p.kind) or "hang" in (n.kind, o.kind, p.kind):
            return "%r in %r: %r, %r, %r" % (text, lang, n, o, p)
        words = re.findall(r"[\w\u0300-\u036f\u0900-\u0963]+|-", text)
        # (ordinal endings are understood on the words of every language)
        has_ordinal = any(lx.ordinalish(w, lang) and lx.plain(w) not in lx.L[lang].plain_value
                          for w in words)
        if not has_ordinal and not o.same(n):
            return "%r in %r holds no ordinal: parse_number reads %r, parse_ordinal %r" % (
                text, lang, n, o)
        if n.value is not None:
            self.observed["texts_that_are_a_number"] += 1
            if not o.same(n):
                return "%r in %r: parse_number reads %r, parse_ordinal %r" % (text, lang, n, o)
            tail = "|".join(re.escape(s) for s in wd.SKIPS[lang]) or "(?!)"
            if not re.fullmatch(r"%d(\s*(%s))*" % (n.value, tail), p.value, re.I):
                return "%r in %r: parse_number reads %r, parse gives %r" % (text, lang, n, p)
        else:
            self.observed["texts_that_are_not"] += 1
            if re.fullmatch(r"[0-9]+", p.value) and not re.search(r"\d", text) and not has_ordinal:
                return "%r in %r: parse gives %r, parse_number %r" % (text, lang, p, n)
        return None

    def extra(self):
        return self.observed


class C24(core.Prop):
    id = "C24"
    rule = ("Any text (the generators of C08 and mixed sentences) in each language: converting a converted "
            "text changes nothing. Non-trivial: texts the first conversion changed.")
    required = ("fuzz", "mixed")

    def __init__(self):
        self.observed = {"texts_the_first_conversion_changed": 0}

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 15
        for _ in range(36000 * scale // nshards):
            lang = rng.choice(LANGS)
            if rng.random() < 0.5:
                yield {"k": "mixed", "lang": lang,
                       "text": mixed(rng, lang, rng.randint(1, 14), ordinals=lang == "en").source()}
            else:
                yield {"k": "fuzz", "lang": lang, "text": fuzz.text(rng, lang)}

    def judge(self, case, api):
        text, lang = case["text"], case["lang"]
        once = api.parse(text, lang)
        if once.kind != "ok":
            return "parse(%r, %r) is %r" % (text, lang, once)
        self.changed = once.value != text
        if self.changed:
            self.observed["texts_the_first_conversion_changed"] += 1
        twice = api.parse(once.value, lang)
        if not twice.same(once):
            return "parse(%r, %r) is %r, and converting that again gives %r" % (text, lang, once, twice)
        return None

    def nontrivial(self, case):
        return self.changed

    def extra(self):
        return self.observed


class C30(core.Prop):
    id = "C30"
    rule = ("Parts of any kind (number runs, mixed sentences, fuzzed text, other languages, white space, long "
            "runs of ordinary words) with one ordinary word in front of, between and behind them, 2-4,000 parts to a text: the conversion of "
            "the whole is put together from the conversions of the single parts with the word on both sides. "
            "Non-trivial: distinct texts in which something was converted.")
    required = ("pair", "several", "document", "far")

    def __init__(self):
        self.observed = {"parts_compared": 0, "max_parts_in_a_text": 0, "max_characters": 0}

    def part(self, rng, lang):
        k = rng.random()
        if k < 0.25:
            return number(rng, lang)[0]
        if k < 0.5:
            return mixed(rng, lang, rng.randint(1, 8), ordinals=lang == "en").source()
        if k < 0.65:
            return " ".join(rng.choice(lx.L[lang].words + wd.SKIPS[lang]) for _ in range(rng.randint(1, 9)))
        if k < 0.7:
            return number(rng, rng.choice(LANGS))[0]
        if k < 0.75:
            return rng.choice(["", " ", "\n\n", ".", ",", "-", ". . .", rng.choice(wd.SKIPS[lang] or ["-"])])
        return fuzz.text(rng, lang, 60)

    def word(self, rng, lang):
        while True:
            w = wd.filler(rng, lang)
            if re.fullmatch(r"[a-zа-яёіїєґ]+|[\u0900-\u0963]+", w) and not lx.numberish(w, lang):
                return wd.recase(rng, w, 0.1)

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 12
        for i in range(12000 * scale // nshards):
            lang = rng.choice(LANGS)
            w = self.word(rng, lang)
            if i % 250 == 0:
                pool = [self.part(rng, lang) for _ in range(rng.choice([1, 2, 10, 60]))]
                parts = [rng.choice(pool) for _ in range(rng.choice([200, 1000, 4000]))]
                k = "document"
            elif i % 250 == 1:
                # a part a long way from anything else
                far = " ".join(wd.filler(rng, lang) for _ in range(rng.choice([300, 3000, 20000])))
                parts = [self.part(rng, lang), far, self.part(rng, lang)]
                if rng.random() < 0.5:
                    parts.insert(rng.choice([0, 3]), far)
                k = "far"
            else:
                parts = [self.part(rng, lang) for _ in range(2 if i % 2 else rng.randint(3, 12))]
                k = "pair" if i % 2 else "several"
            yield {"k": k, "lang": lang, "word": w, "parts": parts}

    def judge(self, case, api):
        w, lang, parts = case["word"], case["lang"], case["parts"]
        want, known = [w], {}
        for part in parts:
            if part not in known:
                got = api.parse("%s %s %s" % (w, part, w), lang)
                if got.kind != "ok" or not got.value.startswith(w) or not got.value.endswith(w):
                    return "parse(%r, %r) is %r" % ("%s %s %s" % (w, part, w), lang, got)
                known[part] = got.value[len(w):]
            want.append(known[part])
        self.observed["parts_compared"] += len(parts)
        self.observed["max_parts_in_a_text"] = max(self.observed["max_parts_in_a_text"], len(parts))
        text = " ".join(x for part in parts for x in (w, part)) + " " + w
        self.observed["max_characters"] = max(self.observed["max_characters"], len(text))
        want = "".join(want)
        self.changed = want != text
        got = api.parse(text, lang)
        if got.is_(want):
            return None
        at = next((i for i, (a, b) in enumerate(zip(str(got.value), want)) if a != b), -1)
        if got.kind != "ok" or len(want) < 400:
            return "parse(%r, %r) is %r; its parts give %r" % (text[:2000], lang, got, want[:2000])
        return "parse of %d characters (%s, parts around %r) differs from its parts at %d: %r, not %r" % (
            len(text), lang, w, at, got.value[max(0, at - 60):at + 60], want[max(0, at - 60):at + 60])

    def nontrivial(self, case):
        return self.changed

    def extra(self):
        return self.observed
