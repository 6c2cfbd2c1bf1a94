"""C10-C17, C23-C25: texts around numbers."""

import re
import unicodedata

from .. import core, fuzz, lexicon as lx, model, words as wd
from .cardinals import spaced

LANGS = list(lx.LANGS)

UNIVERSAL = [w for lang in ("en", "es") for w in wd.FILLER[lang]
             if w.isascii() and w.isalnum() and not any(lx.numberish(w, c) for c in LANGS)]
assert len(UNIVERSAL) > 30


def number(rng, lang, digits=None, plain=False):
    """(text, n, spelling) of a random number."""
    top = lx.limit(lang)
    if rng.random() < 0.6:
        top = min(top, 10 ** rng.randint(1, 9))
    n = lx.structured(rng, top)
    if rng.random() < 0.1:
        n = rng.randint(0, 20)
    s = lx.spell(lang, n, rng)
    text = s.text() if plain else wd.recase(rng, spaced(rng, s, 0.03), 0.12)
    if lang == "uk" and not plain:
        text = wd.apostrophes(rng, text)
    return text, n, s


def sized(rng, lang, digits):
    """(text, n) of a number of so many digits."""
    n = rng.randrange(10 ** (digits - 1) if digits > 1 else 0, 10 ** digits)
    if rng.random() < 0.3:
        n = max(n - n % 10 ** rng.randint(0, digits - 1), 1)
    text = wd.recase(rng, lx.spell(lang, n, rng).text(), 0.1)
    return (wd.apostrophes(rng, text) if lang == "uk" else text), n


def punct(rng):
    return rng.choice(wd.PUNCT)


def misspelt(lang, shard, nshards):
    words = lx.L[lang].words + (fuzz.ORDINALS if lang == "en" else [])
    for w in words[shard::nshards]:
        yield from fuzz.misspellings(lang, w)
    for w in fuzz.COMMON[lang][shard::nshards]:
        if not lx.numberish(w, lang) and not w.isdecimal():
            yield w


class C10(core.Prop):
    id = "C10"
    rule = ("Texts that are not exactly one number: a number with foreign words, punctuation or digits "
            "around or inside it, two numbers, a leading or lone conjunction, another language's "
            "words, glued and misspelt words, ordinals (for parse_number). parse_number and "
            "parse_ordinal give None. Non-trivial: every case.")
    required = ("foreign-before", "foreign-after", "foreign-inside", "punct", "two-numbers",
                "leading-conjunction", "lone-conjunction", "other-language", "digits", "ordinal",
                "glued", "typo", "filler", "other-conjunction", "auto", "random", "imitation", "long", "stray",
                "qualified", "bracketed", "literal", "nothing")

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 15
        for i, c in enumerate(c for c in map(chr, range(0x3100)) if self.counts(c)):
            # every character of the first planes, tight and loose
            if i % nshards == shard:
                t = number(rng, "en", plain=True)[0]
                yield {"k": "stray", "lang": "en", "text": rng.choice(["%s %s", "%s\n%s"]) % (
                    rng.choice([(c, t), (t, c)]))}
        makers = [getattr(self, m) for m in sorted(dir(self)) if m.startswith("make_")]
        for lang in LANGS:
            # every word with one spoiler
            for i, w in enumerate(lx.L[lang].words):
                if i % nshards != shard:
                    continue
                p = punct(rng)
                yield {"k": "punct", "lang": lang, "text": rng.choice([w + p, p + w, w + " " + p])}
                yield {"k": "foreign-after", "lang": lang, "text": w + " " + wd.filler(rng, lang)}
                yield {"k": "foreign-before", "lang": lang, "text": wd.filler(rng, lang) + " " + w}
        for p in (wd.PUNCT + [".", ",", "_"])[shard::nshards]:
            for lang in LANGS:
                t, n, s = number(rng, lang)
                for text in (t + p, p + t, p, t + " " + p + " " + t):
                    yield {"k": "punct", "lang": lang, "text": text}
        for w, v in sorted(lx.ORDINAL_VALUE.items())[shard::nshards]:
            yield {"k": "ordinal", "lang": "en", "text": w}
        for lang in LANGS:
            for w in misspelt(lang, shard, nshards):
                yield {"k": "typo", "lang": lang, "text": w if rng.random() < 0.7 else "%s %s" % (
                    number(rng, lang, plain=True)[0], w)}
        for _ in range(40000 * scale // nshards):
            lang = rng.choice(LANGS)
            case = rng.choice(makers)(rng, lang)
            if case is not None:
                case.setdefault("lang", lang)
                yield case

    def make_before(self, rng, lang):
        return {"k": "foreign-before",
                "text": wd.filler(rng, lang) + wd.space(rng) + number(rng, lang)[0]}

    def make_after(self, rng, lang):
        return {"k": "foreign-after",
                "text": number(rng, lang)[0] + wd.space(rng) + wd.filler(rng, lang)}

    def make_inside(self, rng, lang):
        text, n, s = number(rng, lang, plain=True)
        if len(s.words) < 2:
            return None
        i = rng.randrange(1, len(s.words))
        junk = rng.choice([wd.filler(rng, lang), punct(rng), ".", ",", str(rng.randint(0, 99))])
        head = "".join(j + w for j, w in list(zip(s.joins, s.words))[:i])
        tail = "".join(j + w for j, w in list(zip(s.joins, s.words))[i:])
        return {"k": "foreign-inside", "text": head + " " + junk + " " + tail.lstrip("-")}

    def make_punct(self, rng, lang):
        t = number(rng, lang)[0]
        p = rng.choice([punct(rng), ".", ","])
        return {"k": "punct", "text": rng.choice([t + p, p + t, p + t + p, t + " " + p])}

    def make_two(self, rng, lang):
        for _ in range(20):
            t1, n1, s1 = number(rng, lang, plain=True)
            t2, n2, s2 = number(rng, lang, plain=True)
            if model.hard_boundary(lang, s1.words[-1], s2.words[0]):
                join = rng.choice([" ", " ", wd.space(rng, 0)]
                                  + [" %s " % s for s in wd.SKIPS[lang]])
                return {"k": "two-numbers", "text": t1 + join + t2}

    def make_leading(self, rng, lang):
        if not wd.SKIPS[lang]:
            return None
        s = rng.choice(wd.SKIPS[lang])
        if rng.random() < 0.2:
            s = rng.choice([s + " " + s, s + s, " " + s, s + "\n" + s])
            return {"k": "lone-conjunction", "text": s}
        return {"k": "leading-conjunction",
                "text": rng.choice(["", " ", "\n"]) + s + rng.choice([" ", "  ", "\n"])
                + number(rng, lang)[0]}

    def make_lone(self, rng, lang):
        if not wd.SKIPS[lang]:
            return None
        n = rng.randint(1, 3)
        return {"k": "lone-conjunction",
                "text": wd.space(rng).join(rng.choice(wd.SKIPS[lang]) for _ in range(n))}

    def make_other(self, rng, lang):
        other = rng.choice([c for c in LANGS if c != lang])
        text, n, s = number(rng, other, plain=True)
        if all(lx.numberish(w, lang) for w in s.words):
            return None
        if rng.random() < 0.3:
            text = number(rng, lang, plain=True)[0] + " " + text
        return {"k": "other-language", "text": text}

    def make_digits(self, rng, lang):
        t = number(rng, lang)[0]
        d = str(rng.randint(0, 10 ** rng.randint(1, 12)))
        if rng.random() < 0.3:
            suffix = rng.choice("st nd rd th ST Th º ª -й -го -я го й ый k K m M bn x % ° € th. 's s e3 .0 .5 ,0 /1 ! , . ) ² ½ er ème वाँ वां".split())
            sign = rng.choice(["", "", "", "", "-", "+", "#", "$", "€", "~", "0x", "no. ", "№", "(", "."])
            return {"k": "digits", "text": sign + d + suffix}
        return {"k": "digits", "text": rng.choice([
            t + " " + d, d + " " + t, d + t, t + d, d + " " + t + " " + d, t + "\n" + d])}

    def make_ordinal(self, rng, lang):
        n = lx.structured(rng, 10 ** rng.randint(1, 24))
        return {"k": "ordinal", "lang": "en",
                "text": wd.recase(rng, lx.spell_en(n, rng, ordinal=True).text(), 0.2)}

    def make_glued(self, rng, lang):
        words = lx.L[lang].words
        w = [rng.choice(words) for _ in range(rng.randint(2, 3))]
        w = "".join(x.capitalize() for x in w) if rng.random() < 0.3 else rng.choice(["", "", "_"]).join(w)
        if lx.numberish(w, lang):
            return None
        if rng.random() < 0.3:
            w = number(rng, lang, plain=True)[0] + " " + w
        return {"k": "glued", "text": w}

    def make_typo(self, rng, lang):
        w = rng.choice(lx.L[lang].words)
        if lang == "en" and rng.random() < 0.3:
            w = rng.choice(fuzz.ORDINALS)
        if rng.random() < 0.35:
            ts = [t for t in fuzz.rewritten(rng, w) if not lx.numberish(t, lang)]
            return {"k": "typo", "text": rng.choice(ts)} if ts else None
        k = rng.randrange(6)
        i = rng.randrange(len(w))
        letters = {"en": "abcdefghijklmnopqrstuvwxyz", "es": "abcdefghijklmnopqrstuvwxyz",
                   "hi": "कखगघचजटडतदनपबमरलवसह"}.get(lang, "абвгдежзиклмнопрстуфхцчшщья")
        if k == 0:
            t = w[:i] + w[i + 1:]
        elif k == 1:
            t = w[:i] + rng.choice(letters) + w[i:]
        elif k == 2:
            t = w[:i] + rng.choice(letters) + w[i + 1:]
        elif k == 3:
            t = w + rng.choice(letters)
        elif k == 5:
            t = w[:i] + w[i] * rng.randint(3, 12) + w[i + 1:]
        else:
            t = w + w[-1]
        if not re.fullmatch(r"[^\W_]+", unicodedata.normalize("NFC", t)) and lang != "hi":
            return None
        if not lx.plain(t) or lx.numberish(t, lang):
            return None
        if lang == "hi" and unicodedata.category(t[0]) in ("Mn", "Mc"):
            return None
        return {"k": "typo", "text": t}

    def make_imitation(self, rng, lang):
        w = rng.choice(lx.L[lang].words)
        w = rng.choice(list(fuzz.folded(w)) or [None]) if rng.random() < 0.3 else fuzz.imitation(rng, w)
        if w is None or lx.numberish(w, lang) or lx.numberish(w.lower(), lang):
            return None
        if rng.random() < 0.3:
            w = number(rng, lang, plain=True)[0] + " " + w
        return {"k": "imitation", "text": w}

    def make_long(self, rng, lang):
        """A long number or dictation with one spoiler somewhere."""
        if rng.random() > 0.02:
            return None
        t = " ".join(number(rng, lang, plain=True)[0] for _ in range(rng.choice([1, 40, 300, 1500])))
        words = t.split(" ")
        words.insert(rng.choice([0, len(words), len(words), rng.randint(0, len(words))]), wd.filler(rng, lang))
        return {"k": "long", "text": " ".join(words)}

    @staticmethod
    def counts(c):
        """Whether a character counts: no white space, and nothing the reader is to ignore."""
        return not (c.isspace() or c in "-\xad'\u2019\u02bc" or unicodedata.category(c) == "Mn"
                    or not lx.plain(c).strip() or c in "yYiIеЕіІиИйЙ")

    def make_stray(self, rng, lang):
        """One character more, any one."""
        c = rng.choice([chr(rng.randrange(0x110000)), fuzz.char(rng), chr(rng.randrange(32)), chr(rng.randrange(0x7f, 0xa1)),
                        rng.choice("\u200b\u200c\u200d\u200e\u200f\u2060\ufeff\ufffd\ufffe\u00b7\u2022\u2010\u2011\u2212\x00\x7f"),
                        rng.choice("#$%&*+/:;<=>?@\\^_`|~°€£₹₽№§¶ªº")])
        if not self.counts(c):
            return None
        t = number(rng, lang, plain=True)[0]
        loose = [c + " " + t, t + " " + c]
        if not (c.isalnum() or unicodedata.category(c)[0] == "M" or c == "_"):
            i = rng.randint(0, len(t))
            loose += [c + t, t + c, t + c, t + c + c]
            if not t[max(0, i - 1):i + 1].count(" "):
                # in the middle of a word (the parts may be number words, but the character is none)
                loose.append(t[:i] + c + t[i:])
        return {"k": "stray", "text": rng.choice(loose)}

    QUALIFIERS = {
        "en": "minus plus negative positive point percent half about dollars cents oh times squared dot comma no. plus/minus "
              "roughly degrees quarter & vs nth",
        "es": "menos más negativo coma punto por_ciento medio media unos euros veces casi grados",
        "hi": "ऋण माइनस प्लस दशमलव आधा डेढ़ ढाई साढ़े प्रतिशत लगभग रुपये गुना",
        "ru": "минус плюс точка запятая целых половина процентов около рублей раз градусов",
        "uk": "мінус плюс крапка кома цілих половина відсотків близько гривень разів градусів",
    }

    def make_qualified(self, rng, lang):
        q = rng.choice(self.QUALIFIERS[lang].split()).replace("_", " ")
        if any(lx.numberish(w, lang) or lx.plain(w) in map(lx.plain, wd.SKIPS[lang]) for w in re.findall(r"\w+", q)):
            return None
        t, u = number(rng, lang, plain=True)[0], number(rng, lang, plain=True)[0]
        q = rng.choice([q, q, q.upper(), q.capitalize()])
        return {"k": "qualified", "text": rng.choice(
            ["%s %s" % (q, t), "%s %s" % (q, t), "%s %s" % (t, q), "%s %s %s" % (t, q, u), "%s  %s" % (q, t)])}

    FRAMES = ("(%s)", "[%s]", "{%s}", '"%s"', "«%s»", "“%s”", "<%s>", "*%s*", "_%s_", "<b>%s</b>", "(%s", "%s)", "%s (5)", "%s (x)",
              "%s [1]", "%s (%s)", "%s # 5", "%s // %s", "%s /* x */", "%s; %s", "#1 %s", "%s: %s", "1. %s", "1) %s",
              "%s...", "...%s", "¿%s?", "¡%s!", "%s\\n", "%%20%s", "&nbsp;%s", "%s&", "=%s", "$%s", "%s%%", "%s°", "~%s", "+%s", "±%s",
              "–%s", "—%s", "%s | %s", "%s\x00", "\x00%s", "%s\x00%s", "\ufeff%s", "%s\u200b", "\u200b%s", "%s\u2060", "\\%s", "@%s",
              "%s=%s", "%s,%s", "%s.%s", ",%s", ".%s", "%s,", "%s.", "%s (ten)", "%s!", "%s?")

    def make_bracketed(self, rng, lang):
        f = rng.choice(self.FRAMES)
        n = f.replace("%%", "").count("%s")
        return {"k": "bracketed", "text": f % tuple(number(rng, lang, plain=True)[0] for _ in range(n))}

    def make_literal(self, rng, lang):
        """A string the code mentions, which is no word of a number."""
        m = rng.choice(fuzz.dictionary()).strip()
        tokens = re.findall(r"[^\W_]+", m)
        if not any(len(w) > 1 and w.isascii() and w.isalpha() and not lx.contains_numberish(w) and w not in (
                "and", "th", "ieth", "st", "nd", "rd") for w in tokens):
            return None
        t = number(rng, lang, plain=True)[0]
        return {"k": "literal", "text": rng.choice(["%s %s" % (m, t), "%s %s" % (t, m), t + " " + m + " " + t])}

    def make_filler(self, rng, lang):
        text = wd.space(rng).join(wd.filler(rng, lang) for _ in range(rng.randint(1, 5)))
        return None if text.isdecimal() else {"k": "filler", "text": text}

    def make_other_conjunction(self, rng, lang):
        text, n, s = number(rng, lang, plain=True)
        if len(s.words) < 2:
            return None
        i = rng.randrange(1, len(s.words))
        pool = {"en": ["y", "और", "и", "і", "&", "plus", "–", "—", "_"],
                "es": ["and", "-", "e", "i", "&", "–"],
                "hi": ["और", "and", "-", "y", "व"],
                "ru": ["и", "and", "-", "y", "да"], "uk": ["і", "та", "and", "-", "й", "y"]}[lang]
        c = rng.choice(pool)
        sep = rng.choice([" %s ", "%s"]) if c in "-–—&" else " %s "
        words = [w for w in s.words]
        return {"k": "other-conjunction",
                "text": " ".join(words[:i]) + sep % c + " ".join(words[i:])}

    def make_auto(self, rng, lang):
        t = number(rng, lang, plain=True)[0]
        j = rng.choice(UNIVERSAL + ["!", "$", "?", ";", "1997", "x9", "№"])
        return {"k": "auto", "lang": None,
                "text": rng.choice([t + " " + j, j + " " + t, j + " " + t + " " + j])}

    def make_nothing(self, rng, lang):
        """Marks and white space only."""
        t = "".join(rng.choice(["'", "\u2019", "''", "\u02bc", "-", "_", ".", ",", "&", "!", " ", "\xad", "\u0301", "\u200d", '"', "()"])
                    for _ in range(rng.randint(1, 5)))
        return {"k": "nothing", "text": t} if t.strip() else None

    def make_random(self, rng, lang):
        t = fuzz.random_unicode(rng, rng.randint(1, 12))
        if lx.contains_numberish(t) or not t.strip() or "-" in t or "\xad" in t:
            return None
        p = lx.plain(t)
        if p.strip().isdecimal() or p.strip() in ("y", "and", ""):
            return None
        return {"k": "random", "text": t}

    def judge(self, case, api):
        ops = ["parse_number"]
        if case["k"] != "ordinal":
            ops.append("parse_ordinal")
        for op in ops:
            got = api.call(op, case["text"], case["lang"])
            if not got.is_(None):
                return "%s(%r, %r) is %r: the text is not exactly one number" % (
                    op, case["text"], case["lang"], got)
        return None


#: what splits a word in two: nothing of it may be put together again
SPLITTERS = list("‘`´ʹ′ʻ＇\u200b\u200c\u200d\u2060\ufeff\u061c\u200e\u200f\x00\x7f·•‐‑−—…☃/\\|*~^+=&%$#@!?;:()[]{}<>\"«»।\u00ac\ufffc\ufffd") + [
    " ", "\n", "-", ", ", ".", "\u00a0", "- ", "-\n"]


class C11(core.Prop):
    id = "C11"
    rule = ("Texts without a number word of the language: sentences of common and look-alike words "
            "(words containing, prefixing or gluing number words, other languages' numbers, ordinals "
            "in languages other than English), conjunctions, punctuation, digits, any white space, and "
            "random Unicode; parse returns them trimmed of outer white space and soft hyphens. "
            "Non-trivial: distinct and not blank.")
    required = ("sentence", "look-alike", "other-language", "random", "foreign-ordinal", "auto", "typo",
                "rewritten", "imitation", "long", "split", "markup")

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 15
        for lang in LANGS:
            for w in wd.FILLER[lang][shard::nshards]:
                yield {"k": "sentence", "text": w, "lang": lang}
                yield {"k": "sentence", "text": w.upper() + ".", "lang": lang}
            for i, w in enumerate(lx.L[lang].words):
                if i % nshards == shard:
                    for other in LANGS:
                        if not lx.numberish(w, other) and "’" not in w:
                            yield {"k": "other-language", "text": w, "lang": other}
                    for deco in ("x%s", "%sx", "%s1", "1%s", "%s_", "_%s", "%sß", "%s%s", "%sness", "un%s",
                                 "%sя", "я%s", "%sа", "%sकी", "%sfold", "%sish"):
                        t = deco % ((w,) * deco.count("%s"))
                        if not lx.numberish(t, lang):
                            yield {"k": "look-alike", "text": t, "lang": lang}
        for w in sorted(lx.ORDINAL_VALUE)[shard::nshards]:
            for t in fuzz.folded(w):
                if not lx.numberish(t, "en"):
                    yield {"k": "imitation", "text": t, "lang": "en"}
            for lang in ("es", "hi", "ru", "uk"):
                yield {"k": "foreign-ordinal", "text": w, "lang": lang}
            for deco in ("%ss", "%sly", "%ser", "%sed", "un%s", "%s_", "x%s", "%s1", "%sth", "%ss's", "%sness",
                         "%sy", "%ses", "%sn", "%sst", "%snd", "%srd"):
                if not any(lx.numberish(t, "en") for t in re.split("[^\\w]", deco % w) if t):
                    yield {"k": "look-alike", "text": deco % w, "lang": "en"}
        for lang in LANGS:
            for i, w in enumerate(lx.L[lang].words):
                if i % nshards == shard:
                    for t in fuzz.rewritten(rng, w):
                        if not lx.numberish(t, lang):
                            yield {"k": "rewritten", "text": t, "lang": lang}
        for lang in LANGS:
            for i, w in enumerate(lx.L[lang].words):
                if i % nshards == shard:
                    for t in fuzz.folded(w):
                        if not lx.numberish(t, lang):
                            yield {"k": "imitation", "text": t, "lang": lang}
                    for c in rng.sample(SPLITTERS, 4) + (rng.sample(["'", "\u2019"], 1) if lang != "uk" else []):
                        j = rng.randrange(1, len(w)) if len(w) > 1 else 1
                        parts = [w[:j], w[j:]]
                        if not any(lx.numberish(x, lang) for x in parts if x) and parts[1] and not (
                                lang == "hi" and (c in "\u200c\u200d" or unicodedata.category(parts[1][0])[0] == "M")):
                            yield {"k": "split", "text": c.join(parts), "lang": lang}
                    t = fuzz.imitation(rng, w)
                    if t and not lx.numberish(t, lang) and not lx.numberish(t.lower(), lang):
                        yield {"k": "imitation", "text": t, "lang": lang}
        for _ in range(6 * scale):
            lang = rng.choice(LANGS)
            t = " ".join(self.sentence(rng, lang) for _ in range(rng.choice([60, 300, 900])))
            yield {"k": "long", "text": t, "lang": lang}
        for lang in LANGS:
            for w in misspelt(lang, shard, nshards):
                yield {"k": "typo", "text": rng.choice([w, w.upper(), "%s %s" % (w, wd.filler(rng, lang)), w.capitalize() + "."]),
                       "lang": lang}
        for i, m in enumerate(wd.MARKUP):
            for lang in LANGS:
                if (i + len(lang + lang[0])) % nshards == shard or tier != "quick":
                    f = wd.filler(rng, lang)
                    for t in (m, f + m, m + f, f + " " + m, m + " " + f, f + " " + m + " " + f + m + f, m + m, m.upper(), m + " "):
                        if not lx.contains_numberish(t):
                            yield {"k": "markup", "text": t, "lang": lang}
        typo = C10().make_typo
        for _ in range(40000 * scale // nshards):
            lang = rng.choice(LANGS)
            k = rng.random()
            if k < 0.45:
                yield {"k": "sentence", "text": self.sentence(rng, lang), "lang": lang}
            elif k < 0.6:
                a = rng.choice(lx.L[lang].words)
                b = rng.choice(lx.L[lang].words + (
                    ["ों", "वां", "ता"] if lang == "hi" else ["s", "th", "er", "ть", "ка", "y", "ish", "ty"]))
                t = rng.choice([a + b, b + a, a + "_" + b, a + str(rng.randint(0, 9)) + b,
                                a.capitalize() + b.capitalize(), a.upper() + b])
                if not lx.numberish(t, lang) and t == t.strip():
                    yield {"k": "look-alike", "text": t + rng.choice(["", " cows", "!"]), "lang": lang}
            elif k < 0.7:
                other = rng.choice([c for c in LANGS if c != lang])
                ws = [w for w in lx.spell(other, lx.structured(rng, lx.limit(other)), rng).words
                      if not lx.numberish(w, lang) and not any(a in w for a in lx.APOSTROPHES)]
                if ws:
                    yield {"k": "other-language", "text": " ".join(ws), "lang": lang}
            elif k < 0.8:
                t = typo(rng, lang)
                if t:
                    yield {"k": "typo", "text": t["text"], "lang": lang}
            elif k < 0.93:
                t = fuzz.random_unicode(rng, rng.randint(1, 60))
                if not lx.contains_numberish(t):
                    yield {"k": "random", "text": t, "lang": rng.choice(LANGS + [None])}
            else:
                t = " ".join(rng.choice(UNIVERSAL) for _ in range(rng.randint(1, 8)))
                yield {"k": "auto", "text": t + rng.choice(["", ".", "!"]), "lang": None}

    def sentence(self, rng, lang):
        out = []
        for _ in range(rng.randint(1, 10)):
            k = rng.random()
            if k < 0.7:
                out.append(wd.recase(rng, fuzz.literal(rng) or wd.filler(rng, lang), 0.2))
            elif k < 0.8:
                out.append(punct(rng))
            elif k < 0.85:
                out.append(rng.choice([".", ",", "...", "-", "--"]))
            elif k < 0.88:
                out.append(wd.markup(rng))
            elif k < 0.95 and wd.SKIPS[lang]:
                out.append(rng.choice(wd.SKIPS[lang]))
            else:
                out.append(str(rng.randint(0, 99999)))
            out.append(wd.space(rng, 0.75) if rng.random() < 0.95 else rng.choice(wd.PUNCT))
        text = "".join(out)
        if rng.random() < 0.05:
            i = rng.randrange(len(text) + 1)
            text = text[:i] + "\xad" + text[i:]
        if rng.random() < 0.8:
            text = text.strip()
        return text

    def judge(self, case, api):
        text, lang = case["text"], case["lang"]
        want = text.replace("\xad", "").strip()
        got = api.parse(text, lang)
        if not got.is_(want):
            return "parse(%r, %r) is %r: the text holds no number and must come back" % (
                text, lang, got)
        return None

    def nontrivial(self, case):
        return bool(case["text"].strip())


def tight_markup(rng, e):
    """A piece of markup that an ending number cannot be part of."""
    while True:
        m = wd.markup(rng)
        if not (m.endswith("-") or m.startswith("-") or m[0] in "'’" or m[-1] in "'’" or m.endswith(("\u20e3", "\ufe0f"))
                or m != m.strip()):
            return m


def mixed(rng, lang, length, ordinals=False):
    """A sentence of numbers and other text, with the pattern of its conversion."""
    e = model.Expect()
    lex = lx.L[lang]
    prev = None  # kind of the previous element
    last = None  # last word of the number before, None when nothing can continue it
    for _ in range(length):
        k = rng.random()
        # next to a number only a number that cannot continue it
        if k < 0.38 and (not e.after_number or last is None or rng.random() < 0.5):
            kind = "number"
        elif k < 0.62:
            kind = "filler"
        elif k < 0.74:
            kind = "punct"
        elif k < 0.84:
            kind = "sep"
        elif k < 0.92 and wd.SKIPS[lang]:
            kind = "skip"
        elif ordinals and (not e.after_number or last is None):
            kind = "ordinal"
        else:
            kind = "digits" if rng.random() < 0.5 else "filler"
        wordlike = ("number", "filler", "skip", "ordinal", "digits")
        s = None
        if kind == "number":
            for _try in range(6):
                t, n, spelled = number(rng, lang)
                if not e.after_number or last is None or model.hard_boundary(
                        lang, last, spelled.words[0]):
                    break
            else:
                kind = "filler"
        if kind == "skip":
            s = rng.choice(wd.SKIPS[lang])
        tight = s == "-" or kind in ("punct", "sep") or prev in ("punct", "sep", "hyphen")
        if prev is not None:
            if not tight or rng.random() < 0.6:
                e.space(wd.space(rng, 0.7))
        if kind == "number":
            e.number(t, n)
            last = spelled.words[-1]
        elif kind == "ordinal":
            last = None
            n = lx.structured(rng, 10 ** rng.randint(1, 12))
            e.number(wd.recase(rng, spaced(rng, lx.spell_en(n, rng, ordinal=True), 0.03), 0.15), n)
        elif kind == "filler":
            w = (wd.odd(rng, lang) if rng.random() < 0.6 else tight_markup(rng, e)) if rng.random() < 0.08 else fuzz.literal(rng) or wd.filler(rng, lang)
            e.word(wd.recase(rng, w, 0.1))
        elif kind == "digits":
            e.word(str(rng.randint(0, 9999)))
        elif kind == "punct":
            e.word(punct(rng))
        elif kind == "sep":
            e.word(rng.choice([".", ",", ",", "..."]))
        else:
            e.skip(s)
        prev = "hyphen" if s == "-" else kind
        assert prev in wordlike + ("punct", "sep", "hyphen")
    return e


class Mixed(core.Prop):
    ordinals = False

    def judge(self, case, api):
        got = api.parse(case["text"], case["lang"])
        if got.kind != "ok" or type(got.value) is not str or not model.matches(
                case["want"], got.value):
            return "parse(%r, %r) is %r; expected %s" % (
                case["text"], case["lang"], got, re.sub(r"\\(.)", r"\1", case["want"]))
        return None

    def build(self, rng, lang, length, k, ordinals=False):
        e = mixed(rng, lang, length, ordinals)
        if not e.numbers:
            return None
        src = e.source()
        if rng.random() < 0.1:
            src = wd.space(rng, 0.3) + src + wd.space(rng, 0.3)
        return {"k": k, "text": src, "want": e.regex(), "lang": lang, "numbers": e.numbers}


class C12(Mixed):
    id = "C12"
    rule = ("Sentences of 1-3000 elements in five languages: spelled numbers (every magnitude and variant) "
            "among words, look-alikes, digits, conjunctions, punctuation and white space; side by side or "
            "with a conjunction only when the second number cannot continue the first, and random Unicode "
            "between numbers; parse must put each value in its number's place and "
            "keep the rest in order. Non-trivial: a distinct sentence with a number and other text.")
    required = ("short", "sentence", "long", "template", "very-long", "soup", "markup", "context")

    def __init__(self):
        self.observed = {"numbers_converted": 0, "max_numbers_in_a_text": 0}

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 15
        for lang in LANGS:
            for i, w in enumerate(lx.L[lang].words):
                if i % nshards == shard:
                    f, g = wd.filler(rng, lang), wd.filler(rng, lang)
                    e = model.Expect()
                    e.word(f)
                    e.space(" ")
                    e.number(w, lx.L[lang].value[w])
                    e.space(" ")
                    e.word(g)
                    yield {"k": "template", "text": e.source(), "want": e.regex(), "lang": lang,
                           "numbers": 1}
            for p in (wd.PUNCT + [".", ","])[shard::nshards]:
                for shape in range(4):
                    e = model.Expect()
                    if shape % 2:
                        e.word(p)
                    t, n, _ = number(rng, lang)
                    e.number(t, n)
                    e.word(p)
                    if shape > 1:
                        t, n, _ = number(rng, lang)
                        e.number(t, n)
                    yield {"k": "template", "text": e.source(), "want": e.regex(), "lang": lang,
                           "numbers": e.numbers}
            for w in wd.CONTEXT[lang][shard::nshards]:
                for _ in range(24 * scale):
                    yield self.context(rng, lang, w)
        made = 0
        while made < 4 * scale:
            case = self.build(rng, rng.choice(LANGS), rng.choice([700, 1500, 3000]), "very-long")
            if case:
                made += 1
                yield case
        for _ in range(30000 * scale // nshards):
            lang = rng.choice(LANGS)
            k = rng.random()
            if k < 0.07:
                case = self.soup(rng, lang)
            elif k < 0.14:
                case = self.framed(rng, lang)
            elif k < 0.5:
                case = self.build(rng, lang, rng.randint(1, 5), "short")
            elif k < 0.97:
                case = self.build(rng, lang, rng.randint(4, 16), "sentence")
            else:
                case = self.build(rng, lang, rng.randint(20, 150), "long")
            if case:
                yield case

    CONTEXTS = ("{n} {w} {n}", "{n} {w} {n}", "x {n} {w} {n} x", "x {n} {w} {n}", "{w} {n}", "{n} {w}", "x {w} {n} x", "{n} {w} {n} {w} {n}",
                "{n} {w} x {n}", "x {n} {w} x", "{n} {x} {w} {n}", "{w} {n} {w}", "{n} {w} {w} {n}", "{n}-{w}-{n}", "{n} {w}, {n}")

    def context(self, rng, lang, w):
        """Numbers of every size beside a word that could be thought to change them."""
        e = model.Expect()
        w = rng.choice([w, w, w, w.upper(), w.capitalize()])
        frame = rng.choice(self.CONTEXTS)
        for part in re.findall(r"\{.\}|.", frame):
            if part == "{n}":
                e.number(*sized(rng, lang, rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 7])))
            elif part == " ":
                e.space(" ")
            else:
                e.word(w if part == "{w}" else wd.filler(rng, lang) if part in ("x", "{x}") else part)
        return {"k": "context", "text": e.source(), "want": e.regex(), "lang": lang, "numbers": e.numbers}

    FRAMES = (("https://example.com/", ""), ("http://example.com/x?y=", "&z=w"), ("www.example.com/", "/x"), ("x@", ".org"), ("(", ")"),
              ("&nbsp;", "&nbsp;"), ("&lt;", "&gt;"), ("<b>", "</b>"), ("<a href=\"", "\">x</a>"), ("<!-- ", " -->"), ("[", "](x)"),
              ("**", "**"), ("`", "`"), ("{", "}"), ("{{", "}}"), ("${", "}"), ("%(", ")s"), ("\\", ""), ("\\1 ", " \\2"), ("\\g<", ">"),
              ("x=", ";"), ("\"", "\""), ("/*", "*/"), ("// ", ""), ("#", ""), ("@", ""), ("C:\\", "\\x"), ("/", "/"), ("~", "~"), ("|", "|"),
              ("\x1b[31m ", "\x1b[0m"), ("\x00", "\x00"), ("BEGIN:", ""), ("x;", ";x"), ("No. ", ""), ("Mr. ", ""), ("e.g. ", ""), ("i.e. ", ""), ("vs. ", ""),
              ("p. ", " ff."), ("\ufeff", ""), ("\u202e", "\u202c"), ("\U0001f600", "\U0001f600"), ("10:30 ", " 2024"), ("1. ", ""), ("1) ", ""),
              ("$", ""), ("#1 ", ""), ("1/", ""), ("", "/2"), ("", "%"), ("", "!"), ("", "?!"), ("a) ", ""), ("Chapter ", ":"), ("", " (x)"),
              ("\u2018", "\u2019"), ("\u201c", "\u201d"), ("\u201e", "\u201c"), ("\u2039", "\u203a"), ("`", "\u00b4"))
    # a word of its own next to an apostrophe; in Ukrainian an apostrophe is part of a word
    APOSTROPHES = (("'", "'"), ("''", "''"), ("'", ""), ("", "'"), ("", "'s"), ("", "\u2019s"), ("d'", ""), ("l\u2019", ""), ("x'", ""),
                   ("", "'ll"), ("", "'x"), ("'s ", ""), ("", " 's"), ("", "''"), ("\u2019", "\u2019"))

    def framed(self, rng, lang):
        """A number right next to what is no word of a sentence."""
        e = model.Expect()
        for i in range(rng.randint(1, 3)):
            a, b = rng.choice(self.APOSTROPHES if lang != "uk" and rng.random() < 0.2 else self.FRAMES)
            if i:
                e.word(" " + wd.filler(rng, lang) + " ")
            elif rng.random() < 0.5:
                e.word(wd.filler(rng, lang) + " ")
            e.word(a)
            t, n, _ = number(rng, lang)
            e.number(t, n)
            e.word(b)
        if b == "" and rng.random() < 0.5:
            e.word(rng.choice([";", "!", ".", ", x"]))
        return {"k": "markup", "text": e.source(), "want": e.regex(), "lang": lang, "numbers": e.numbers}

    def soup(self, rng, lang):
        """Numbers among arbitrary characters."""
        e = model.Expect()
        for i in range(rng.randint(1, 4)):
            junk = fuzz.random_unicode(rng, rng.randint(1, 40)).replace("\xad", "")
            if lx.contains_numberish(junk):
                return None
            for part in (wd.filler(rng, lang), " ", junk, " ", wd.filler(rng, lang), " "):
                e.word(part)
            t, n, _ = number(rng, lang)
            e.number(t, n)
            e.space(wd.space(rng, 0.8))
        e.word(wd.filler(rng, lang))
        return {"k": "soup", "text": e.source(), "want": e.regex(), "lang": lang, "numbers": e.numbers}

    def judge(self, case, api):
        self.observed["numbers_converted"] += case["numbers"]
        self.observed["max_numbers_in_a_text"] = max(
            self.observed["max_numbers_in_a_text"], case["numbers"])
        return super().judge(case, api)

    def extra(self):
        return self.observed


class C25(Mixed):
    id = "C25"
    rule = ("English sentences with ordinals of every magnitude among cardinals and other text, ordinals "
            "directly followed by another number or ordinal; in the other four languages the same "
            "ordinals stay as they are. Non-trivial: distinct text with an ordinal.")
    required = ("sentence", "chain", "alone", "untouched")

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 15
        for w, v in sorted(lx.ORDINAL_VALUE.items())[shard::nshards]:
            for f in ("%s", "the %s day", "%s.", "(%s)", "%s!", "on the %s", "%s and", "%s,%s"):
                src = f % ((w,) * f.count("%s"))
                yield {"k": "alone", "lang": "en", "text": src,
                       "want": re.escape(f).replace("%s", str(v)).replace(r"\%s", str(v))}
        for n in range(shard, 3000 * scale, nshards):
            yield {"k": "alone", "lang": "en", "want": "day\\ %d\\ of" % n,
                   "text": "day " + lx.spell_en(n, rng, ordinal=True).text() + " of"}
        for _ in range(24000 * scale // nshards):
            k = rng.random()
            if k < 0.5:
                case = self.build(rng, "en", rng.randint(1, 14), "sentence", ordinals=True)
                if case:
                    yield case
            elif k < 0.8:
                e = model.Expect()
                count = rng.randint(2, 5)
                for i in range(count):
                    if i:
                        e.space(wd.space(rng, 0.8))
                    n = lx.structured(rng, 10 ** rng.randint(1, 9))
                    last = i == count - 1
                    cardinal = last and rng.random() < 0.5
                    e.number(wd.recase(rng, lx.spell_en(n, rng, ordinal=not cardinal).text(), 0.1), n)
                yield {"k": "chain", "lang": "en", "text": e.source(), "want": e.regex()}
            else:
                lang = rng.choice(["es", "hi", "ru", "uk"])
                n = lx.structured(rng, 10 ** rng.randint(1, 9))
                words = [w for w in lx.spell_en(n, rng, ordinal=True).text().split()]
                t = wd.filler(rng, lang) + " " + " ".join(words) + " " + wd.filler(rng, lang)
                yield {"k": "untouched", "lang": lang, "text": t, "want": re.escape(t)}


class C13(core.Prop):
    id = "C13"
    rule = ("Texts A, B (soups of number words, conjunctions, other words, punctuation; stripped) joined "
            "by each sentence separator and spacing: the conversion is the join of the two conversions, "
            "in every language; and lists of numbers separated by '.' and ',' keep every value and "
            "separator. Non-trivial: distinct pairs, both not empty.")
    required = ("compose", "list")

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 15
        for r in range(24000 * scale // nshards):
            lang = rng.choice(LANGS)
            if rng.random() < 0.35:
                items = [number(rng, lang) for _ in range(
                    rng.choice([50, 300, 1200]) if r % 600 == 0 else rng.randint(2, 6))]
                seps = [rng.choice([".", ",", ", ", ". ", ",  ", ".\n", ",\t", "...", "., ", ",\n\n", ". . "])
                        for _ in items[1:]]
                text, want = items[0][0], str(items[0][1])
                for s, (t, n, _) in zip(seps, items[1:]):
                    text += s + t
                    want += s + str(n)
                if rng.random() < 0.3:  # what looks like one number with its digits in groups, a date, a time or an address
                    sizes = rng.choice([(1, 3), (2, 3), (3, 3), (1, 3, 3), (2, 3, 3), (3, 3, 3), (1, 3, 3, 3), (3, 3, 3, 3), (2, 2, 4), (1, 2),
                                        (1, 1), (2, 2), (1, 1, 1), (4, 2, 2), (3, 1), (3, 2), (3, 3, 2), (1, 3, 2), (2, 2, 3), (3, 3, 1, 1), (1, 2, 3)])
                    items = [sized(rng, lang, d) for d in sizes]
                    sep = rng.choice([",", ".", ",", ".", ", ", ". "])
                    text, want = sep.join(t for t, _n in items), sep.join(str(n) for _t, n in items)
                tail = rng.choice(["", "", ".", ","])
                yield {"k": "list", "lang": lang, "text": text + tail, "want": want + tail}
            else:
                a, b = self.part(rng, lang), self.part(rng, lang)
                if a and b:
                    yield {"k": "compose", "lang": lang, "a": a, "b": b,
                           "sep": rng.choice([". ", ", ", ".", ",", ".  ", ",\n", "...", ". , ", " . ", " ,", " .",
                                              ",\n\n\n", ".\n\n\n\n", ".,", ",,", ", , ", ".\t"])}

    def part(self, rng, lang):
        k = rng.random()
        if k < 0.3:
            t = number(rng, lang)[0]
        elif k < 0.36:
            # an abbreviation and a short number, the other way round, or alone
            a = rng.choice("No no Nr Mr Dr St vs etc p pp vol art fig ch cf al e.g i.e a.m U.S núm pág стр г п № § Inc Ltd Jr approx".split())
            t = rng.choice(["%s %s", "%s %s", "%s", "{} %s", "{} %s %s"]).replace("{}", wd.filler(rng, lang).replace("%", "%%"))
            b = rng.choice(lx.L[lang].words)
            t = t % ((a, b) if t.count("%s") == 2 else (rng.choice([a, b]),))
        elif k < 0.5:
            t = mixed(rng, lang, rng.randint(1, 6)).source()
        elif k < 0.9:
            t = fuzz.soup(rng, rng.randint(1, 6), lang)
        else:
            t = fuzz.text(rng, lang, 60)
        t = t.replace("\xad", "").strip()
        # an apostrophe or accent at the edge belongs to the neighbouring text
        return t

    def judge(self, case, api):
        lang = case["lang"]
        if case["k"] == "list":
            got = api.parse(case["text"], lang)
            if not got.is_(case["want"]):
                return "parse(%r, %r) is %r, not %r" % (case["text"], lang, got, case["want"])
            return None
        a, b = api.parse(case["a"], lang), api.parse(case["b"], lang)
        text = case["a"] + case["sep"] + case["b"]
        got = api.parse(text, lang)
        if a.kind != "ok" or b.kind != "ok":
            return "parse of %r or %r: %r, %r" % (case["a"], case["b"], a, b)
        want = a.value + case["sep"] + b.value
        if not got.is_(want):
            return "parse(%r, %r) is %r, but its parts make %r" % (text, lang, got, want)
        return None


class C14(core.Prop):
    id = "C14"
    rule = ("Two to six complete numbers of every magnitude written one after the other, the first word of "
            "each unable to continue the one before (unit after unit, ten after unit, hundred word after a "
            "unit ...), separated by white space or a conjunction: parse keeps each apart, parse_number "
            "gives None. All pairs of word forms at the boundary, then random numbers. Non-trivial: "
            "distinct texts.")
    required = ("pair", "two", "many", "conjunction", "digits-dictation")

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 12
        for lang in LANGS:
            lex = lx.L[lang]
            small = [w for w in lex.words if lex.cls[w] != "powers"]
            pairs = [(a, b) for a in small for b in small if model.hard_boundary(lang, a, b)]
            if len(pairs) > 60000:
                pairs = rng.sample(pairs, 60000)
            for i, (a, b) in enumerate(pairs):
                if i % nshards == shard:
                    yield {"k": "pair", "lang": lang, "texts": [a, b],
                           "values": [lex.value[a], lex.value[b]], "joins": [" "]}
        for _ in range(30000 * scale // nshards):
            lang = rng.choice(LANGS)
            if rng.random() < 0.08:
                n = rng.choice([1100, 5000]) if rng.random() < 0.02 else rng.randint(2, 30)
                vals = [rng.randint(0, 9) for _ in range(n)]
                lex = lx.L[lang]
                yield {"k": "digits-dictation", "lang": lang, "values": vals,
                       "texts": [rng.choice(lex.forms("units", v)) for v in vals],
                       "joins": [" "] * (n - 1)}
                continue
            want = rng.choice([2, 2, 2, 3, 4, 6])
            texts, values, last = [], [], None
            while len(texts) < want:
                t, n, s = number(rng, lang, plain=True)
                for _try in range(8):
                    if last is None or model.hard_boundary(lang, last, s.words[0]):
                        break
                    t, n, s = number(rng, lang, plain=True)
                else:
                    break
                if lang == "uk":
                    t = wd.apostrophes(rng, t)
                texts.append(wd.recase(rng, t, 0.1))
                values.append(n)
                last = s.words[-1]
            if len(texts) < 2:
                continue
            joins = []
            conj = False
            for _ in texts[1:]:
                if wd.SKIPS[lang] and rng.random() < 0.3:
                    joins.append(" %s " % " ".join(
                        rng.choice(wd.SKIPS[lang]) for _c in range(rng.choice([1, 1, 1, 2, 2, 3]))))
                    conj = True
                else:
                    joins.append(wd.space(rng, 0.85))
            yield {"k": "conjunction" if conj else "two" if len(texts) == 2 else "many", "lang": lang,
                   "texts": texts, "values": values, "joins": joins}

    def judge(self, case, api):
        lang = case["lang"]
        text, want = case["texts"][0], str(case["values"][0])
        for j, t, v in zip(case["joins"], case["texts"][1:], case["values"][1:]):
            text += j + t
            if j.strip():
                want += r"\s*" + re.escape(j.strip()).replace("\\ ", r"\s*") + r"\s*" + str(v)
            else:
                want += "(?:%s| )" % re.escape(j) + str(v)
        got = api.parse(text, lang)
        if got.kind != "ok" or not model.matches(want, got.value):
            return "parse(%r, %r) is %r; expected the numbers %s" % (text, lang, got, case["values"])
        for op in ("parse_number", "parse_ordinal"):
            got = api.call(op, text, lang)
            if not got.is_(None):
                return "%s(%r, %r) is %r: the text is %d numbers" % (
                    op, text, lang, got, len(case["values"]))
        return None


class C16(core.Prop):
    id = "C16"
    rule = ("A number (or a sentence) and a variant of it that differs only in what readers ignore: letter "
            "case, composed or decomposed accents, missing accents, stress marks, Hindi nukta and nasal "
            "signs, soft hyphens inside number words, apostrophe kind, white space between the words; the "
            "same value, and the same conversion, in each language. Non-trivial: variant differs from "
            "the original.")
    required = ("case", "form", "accents", "stress", "softhyphen", "space", "combined", "word", "accented")

    VOWELS = set("aeiouyаеиоуыэюяіїєё")
    #: every accent, above and below (the iota below is a letter in capitals)
    ACCENTS = [chr(c) for c in range(0x300, 0x370) if unicodedata.category(chr(c)) == "Mn" and c not in (0x345, 0x34f)]

    def variant(self, rng, lang, text, kind):
        if kind == "case":
            return rng.choice([text.upper(), text.title(), text.capitalize(), text.swapcase(),
                               "".join(c.upper() if rng.random() < 0.5 else c for c in text)])
        if kind == "form":
            return unicodedata.normalize(rng.choice(["NFD", "NFC", "NFKC", "NFKD"]), text)
        if kind == "accents":
            d = unicodedata.normalize("NFD", text)
            drop = {"hi": "\u093c\u0901\u0902"}.get(lang, "\u0301\u0300\u0303\u0308\u0306")
            return unicodedata.normalize(
                rng.choice(["NFC", "NFD"]),
                "".join(c for c in d if c not in drop or rng.random() < 0.3))
        if kind == "stress":
            return "".join(
                c + "\u0301" if c.lower() in self.VOWELS and rng.random() < 0.4 else c for c in text)
        if kind == "accented":
            return "".join(
                c + "".join(rng.choice(self.ACCENTS) for _ in range(rng.choice([1, 1, 2])))
                if c.isalpha() and c not in lx.APOSTROPHES
                and not text[i + 1:].lstrip("\xad").startswith(tuple(lx.APOSTROPHES)) and rng.random() < 0.3 else c
                for i, c in enumerate(text))
        if kind == "softhyphen":
            out = text[:1]
            for a, b in zip(text, text[1:]):
                if not a.isspace() and not b.isspace() and rng.random() < 0.25:
                    out += "\xad"
                out += b
            return out
        if kind == "space":
            return "".join(
                "".join(rng.choice(wd.SPACES) for _ in range(rng.randint(1, 2))) if c == " " else c
                for c in text)
        if kind == "apostrophe":
            return wd.apostrophes(rng, text)
        raise KeyError(kind)

    def kinds(self, lang):
        ks = ["form", "accents", "softhyphen", "space"]
        if lang != "hi":
            ks += ["case", "stress", "accented"]
        if lang == "uk":
            ks.append("apostrophe")
        return ks

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 12
        for lang in LANGS:
            lex = lx.L[lang]
            for i, w in enumerate(lex.words):
                if i % nshards == shard:
                    for kind in self.kinds(lang):
                        yield {"k": "word", "kind": kind, "lang": lang, "n": lex.value[w],
                               "text": self.variant(rng, lang, w, kind), "base": w}
        for _ in range(36000 * scale // nshards):
            lang = rng.choice(LANGS)
            t, n, s = number(rng, lang, plain=True)
            kind = rng.choice(self.kinds(lang))
            v = self.variant(rng, lang, t, kind)
            k = kind
            if rng.random() < 0.3:
                for other in self.kinds(lang):
                    if rng.random() < 0.5:
                        v = self.variant(rng, lang, v, other)
                k = "combined"
            yield {"k": k, "lang": lang, "n": n, "text": v, "base": t, "wrap": rng.random() < 0.5}

    def judge(self, case, api):
        lang, n, text = case["lang"], case["n"], case["text"]
        got = api.number(text, lang)
        if not got.is_(n):
            return "parse_number(%r, %r) is %r, not %d as for %r" % (
                text, lang, got, n, case["base"])
        if case.get("wrap"):
            got, want = api.parse("(x) %s; z" % text, lang), "(x) %d; z" % n
        else:
            got, want = api.parse(text, lang), str(n)
        if not got.is_(want):
            return "parse(%r, %r) is %r, not %r" % (text, lang, got, want)
        if lang == "en":
            got = api.ordinal(text, lang)
            if not got.is_(n):
                return "parse_ordinal(%r, %r) is %r, not %d" % (text, lang, got, n)
        return None

    def nontrivial(self, case):
        return case["text"] != case["base"]
