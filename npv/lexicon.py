"""The vocabulary a user relies on, frozen and reviewed independently of the shipped
tables, and the spellers that turn integers into text with it.

Powers are stored as exponents in lexicon.json.  Nothing here is imported from
number_parser.
"""

import json
import os
import random
import re
import unicodedata

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "lexicon.json"), encoding="utf-8") as _f:
    RAW = json.load(_f)

LANGS = ("en", "es", "hi", "ru", "uk")
APOSTROPHES = "'’ʼ"


def nfd(s):
    return unicodedata.normalize("NFD", s)


_VOWEL_SIGNS = set(map(chr, range(0x941, 0x949)))


def plain(word):
    """Case-, accent- and apostrophe-free form of a word (the oracle's own notion)."""
    word = word.replace("\xad", "")
    word = "".join(
        c for c in nfd(word.lower()) if unicodedata.category(c) != "Mn" or c in _VOWEL_SIGNS
    )
    for a in APOSTROPHES:
        word = word.replace(a, "")
    return word


class Lang:
    def __init__(self, code):
        raw = RAW[code]
        self.code = code
        self.units = dict(raw["units"])
        self.direct = dict(raw["direct"])
        self.tens = dict(raw["tens"])
        self.hundreds = dict(raw["hundreds"])
        self.powers = {w: 10**e for w, e in raw["powers"].items()}
        self.skip = list(raw["skip"])
        self.cls = {}
        for c in ("units", "direct", "tens", "hundreds", "powers"):
            for w in getattr(self, c):
                self.cls[w] = c
        self.value = {}
        for c in ("units", "direct", "tens", "hundreds", "powers"):
            self.value.update(getattr(self, c))
        self.plain_value = {plain(w): v for w, v in self.value.items()}
        self.plain_cls = {plain(w): c for w, c in self.cls.items()}
        self.by_value = {}
        for c in ("units", "direct", "tens", "hundreds", "powers"):
            for w, v in sorted(getattr(self, c).items()):
                self.by_value.setdefault((c, v), []).append(w)
        self.words = sorted(self.value)
        self.group_multiplier_limit = 10000 if code == "es" else 100

    def forms(self, cls, value):
        return self.by_value[(cls, value)]


L = {code: Lang(code) for code in LANGS}
ALL_PLAIN = set().union(*(set(lang.plain_value) for lang in L.values()))

# ------------------------------------------------------------------ English ordinals

_ORD = {
    0: "zeroth", 1: "first", 2: "second", 3: "third", 4: "fourth", 5: "fifth", 6: "sixth",
    7: "seventh", 8: "eighth", 9: "ninth", 10: "tenth", 11: "eleventh", 12: "twelfth",
    13: "thirteenth", 14: "fourteenth", 15: "fifteenth", 16: "sixteenth",
    17: "seventeenth", 18: "eighteenth", 19: "nineteenth", 20: "twentieth",
    30: "thirtieth", 40: "fortieth", 50: "fiftieth", 60: "sixtieth", 70: "seventieth",
    80: "eightieth", 90: "ninetieth", 100: "hundredth", 10**3: "thousandth",
    10**6: "millionth", 10**9: "billionth", 10**12: "trillionth", 10**15: "quadrillionth",
    10**18: "quintillionth", 10**21: "sextillionth",
}
ORDINAL_OF = {}
for _w, _v in L["en"].value.items():
    ORDINAL_OF[_w] = _ORD[_v]
ORDINAL_VALUE = {w: v for v, w in _ORD.items()}


def numberish(word, lang):
    """True if the word might be read as a number word in `lang` (generous: used to keep
    filler words clear of anything number-like, including sloppy English ordinals)."""
    w = plain(word)
    lex = L[lang]
    if w in lex.plain_value or w in [plain(s) for s in lex.skip]:
        return True
    return ordinalish(word, lang)


def ordinalish(word, lang):
    lex = L[lang]
    w = plain(word)
    if w in ORDINAL_VALUE and lang == "en":
        return True
    for o, c in (("first", "one"), ("second", "two"), ("third", "three"), ("fifth", "five"),
                 ("eighth", "eight"), ("ninth", "nine"), ("twelfth", "twelve")):
        w = w.replace(o, c)
    return any(
        x in lex.plain_value for x in (w, re.sub("ieth$", "y", w), re.sub("th$", "", w))
    )


def contains_numberish(text, langs=LANGS):
    """Conservative: some number word or conjunction of one of `langs` occurs in the text,
    even inside another word."""
    t = plain(text)
    for lang in langs:
        for w in L[lang].plain_value:
            if w in t:
                return True
    return any(o in t for o in ("first", "second", "third", "fifth", "eighth", "ninth", "twelfth"))


# ------------------------------------------------------------------ spellers
#
# Each speller yields a list of (word, joiner_before) pairs; joiners are " ", "-" or
# " and " style strings.  `rng` None gives the plain canonical form.


def _pick(rng, options, canonical=0, p=0.5):
    if rng is None or len(options) == 1 or rng.random() > p:
        return options[canonical if canonical < len(options) else 0]
    return rng.choice(options)


class Spelling:
    """Words with the joiner that precedes each one."""

    def __init__(self):
        self.words = []
        self.joins = []

    def add(self, word, join=" "):
        self.words.append(word)
        self.joins.append(join if len(self.words) > 1 else "")

    def text(self):
        return "".join(j + w for j, w in zip(self.joins, self.words))


EN_UNITS = ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine",
            "ten", "eleven", "twelve", "thirteen", "fourteen", "fifteen", "sixteen",
            "seventeen", "eighteen", "nineteen"]
EN_TENS = ["", "", "twenty", "thirty", "forty", "fifty", "sixty", "seventy", "eighty", "ninety"]
EN_SCALES = ["", "thousand", "million", "billion", "trillion", "quadrillion", "quintillion",
             "sextillion"]


def _split(n, base):
    groups = []
    while n:
        groups.append(n % base)
        n //= base
    return groups


def spell_en(n, rng=None, ordinal=False):
    s = Spelling()
    chance = (lambda p: False) if rng is None else (lambda p: rng.random() < p)

    def below100(k, join):
        if k < 20:
            s.add(EN_UNITS[k], join)
        else:
            s.add(EN_TENS[k // 10], join)
            if k % 10:
                s.add(EN_UNITS[k % 10], "-" if rng is None or rng.random() < 0.6 else " ")

    def conj():
        return " and " if chance(0.4) else " "

    def below1000(k, join, lead):
        if k >= 100:
            if lead and k < 200 and chance(0.3):
                s.add("hundred", join)
            else:
                s.add(EN_UNITS[k // 100], join)
                s.add("hundred")
            if k % 100:
                below100(k % 100, conj())
        else:
            below100(k, join)

    if n == 0:
        s.add("zero")
    elif 1100 <= n < 10000 and (n // 100) % 10 and chance(0.15):
        below100(n // 100, " ")
        s.add("hundred")
        if n % 100:
            below100(n % 100, conj())
    else:
        groups = _split(n, 1000)
        for i in range(len(groups) - 1, -1, -1):
            g = groups[i]
            if not g:
                continue
            lead = not s.words
            if i == 0:
                below1000(g, conj() if g < 100 and not lead else " ", lead)
            else:
                if lead and g == 1 and chance(0.3):
                    s.add(EN_SCALES[i])
                    continue
                below1000(g, " and " if chance(0.08) and not lead else " ", lead)
                s.add(EN_SCALES[i])
    if ordinal:
        s.words[-1] = ORDINAL_OF[s.words[-1]]
    return s


ES_SMALL = ["cero", "uno", "dos", "tres", "cuatro", "cinco", "seis", "siete", "ocho", "nueve",
            "diez", "once", "doce", "trece", "catorce", "quince", "dieciséis", "diecisiete",
            "dieciocho", "diecinueve", "veinte", "veintiuno", "veintidós", "veintitrés",
            "veinticuatro", "veinticinco", "veintiséis", "veintisiete", "veintiocho",
            "veintinueve"]
ES_TENS = ["", "", "", "treinta", "cuarenta", "cincuenta", "sesenta", "setenta", "ochenta",
           "noventa"]
ES_HUNDREDS = ["", "ciento", "doscientos", "trescientos", "cuatrocientos", "quinientos",
               "seiscientos", "setecientos", "ochocientos", "novecientos"]
ES_SCALES = [None, ("millón", "millones"), ("billón", "billones"), ("trillón", "trillones"),
             ("cuatrillón", "cuatrillones"), ("quintillón", "quintillones"),
             ("sextillón", "sextillones"), ("septillón", "septillones"),
             ("octillón", "octillones"), ("nonillón", "nonillones"),
             ("decillón", "decillones"), ("undecillón", "undecillones"),
             ("duodecillón", "duodecillones"), ("tredecillón", "tredecillones")]


def spell_es(n, rng=None):
    s = Spelling()
    chance = (lambda p: False) if rng is None else (lambda p: rng.random() < p)
    fem = chance(0.25)

    def unit(k, apocope):
        if k == 1:
            return "un" if apocope else ("una" if fem else _pick(rng, ["uno", "un"], p=0.2))
        if k == 21:
            return "veintiún" if apocope else ("veintiuna" if fem else "veintiuno")
        return ES_SMALL[k]

    def below100(k, apocope):
        if k < 30:
            s.add(unit(k, apocope))
        else:
            s.add(ES_TENS[k // 10])
            if k % 10:
                s.add(unit(k % 10, apocope), " y ")

    def below1000(k, apocope):
        if k == 100:
            s.add("cien")
            return
        if k >= 100:
            h = ES_HUNDREDS[k // 100]
            s.add(h[:-2] + "as" if fem and k >= 200 else h)
        if k % 100:
            below100(k % 100, apocope)

    def below1e6(k, apocope):
        if k >= 1000:
            if k >= 2000:
                below1000(k // 1000, True)
            s.add("mil")
        if k % 1000:
            below1000(k % 1000, apocope)

    if n == 0:
        s.add("cero")
        return s
    groups = _split(n, 10**6)
    for i in range(len(groups) - 1, -1, -1):
        g = groups[i]
        if not g:
            continue
        if i == 0:
            below1e6(g, False)
        elif g == 1:
            if not (not s.words and chance(0.3)):
                s.add("un")
            s.add(ES_SCALES[i][0])
        else:
            below1e6(g, True)
            s.add(ES_SCALES[i][1])
    return s


HI_SCALES = [(10**11, "खरब"), (10**9, "अरब"), (10**7, "करोड़"), (10**5, "लाख"),
             (10**3, "हज़ार"), (10**2, "सौ")]


def spell_hi(n, rng=None):
    s = Spelling()
    lex = L["hi"]
    chance = (lambda p: False) if rng is None else (lambda p: rng.random() < p)

    def below100(k):
        s.add(lex.forms("units" if k < 10 else "direct", k)[0])

    if n == 0:
        below100(0)
        return s
    for value, word in HI_SCALES:
        k, n = divmod(n, value)
        if k:
            if not (k == 1 and not s.words and chance(0.3)):
                below100(k)
            s.add(word)
    if n:
        below100(n)
    return s


def _slavic(code):
    lex = L[code]
    top = 21 if code == "ru" else 126
    canonical = {
        "ru": ["ноль", "один", "два", "три", "четыре", "пять", "шесть", "семь", "восемь",
               "девять", "десять", "одиннадцать", "двенадцать", "тринадцать", "четырнадцать",
               "пятнадцать", "шестнадцать", "семнадцать", "восемнадцать", "девятнадцать"],
        "uk": ["нуль", "один", "два", "три", "чотири", "пʼять", "шість", "сім", "вісім",
               "девʼять", "десять", "одинадцять", "дванадцять", "тринадцять", "чотирнадцять",
               "пʼятнадцять", "шістнадцять", "сімнадцять", "вісімнадцять", "девʼятнадцять"],
    }[code]
    tens = {
        "ru": ["двадцать", "тридцать", "сорок", "пятьдесят", "шестьдесят", "семьдесят",
               "восемьдесят", "девяносто"],
        "uk": ["двадцять", "тридцять", "сорок", "пʼятдесят", "шістдесят", "сімдесят",
               "вісімдесят", "девʼяносто"],
    }[code]
    hundreds = {
        "ru": ["сто", "двести", "триста", "четыреста", "пятьсот", "шестьсот", "семьсот",
               "восемьсот", "девятьсот"],
        "uk": ["сто", "двісті", "триста", "чотириста", "пʼятсот", "шістсот", "сімсот",
               "вісімсот", "девʼятсот"],
    }[code]
    thousands = {"ru": ("тысяча", "тысячи", "тысяч"), "uk": ("тисяча", "тисячі", "тисяч")}[code]
    feminine = {"ru": {1: "одна", 2: "две"}, "uk": {1: "одна", 2: "дві"}}[code]

    def plural(k, forms):
        if 11 <= k % 100 <= 14:
            return forms[2]
        return forms[0] if k % 10 == 1 else forms[1] if 2 <= k % 10 <= 4 else forms[2]

    def spell(n, rng=None):
        s = Spelling()
        chance = (lambda p: False) if rng is None else (lambda p: rng.random() < p)
        inflected = chance(0.5)

        def word(cls, value, default):
            if inflected:
                return rng.choice(lex.forms(cls, value))
            return default

        def below1000(k, fem):
            if k >= 100:
                s.add(word("hundreds", k // 100 * 100, hundreds[k // 100 - 1]))
                k %= 100
            if k >= 20:
                s.add(word("tens", k // 10 * 10, tens[k // 10 - 2]))
                k %= 10
            if k:
                default = feminine.get(k, canonical[k]) if fem else canonical[k]
                s.add(word("units" if k < 10 else "direct", k, default))

        if n == 0:
            s.add(word("units", 0, canonical[0]))
            return s
        groups = _split(n, 1000)
        for i in range(len(groups) - 1, -1, -1):
            g = groups[i]
            if not g:
                continue
            if i == 0:
                below1000(g, False)
                continue
            if not (g == 1 and chance(0.4)):
                below1000(g, i == 1)
            forms = lex.forms("powers", 10 ** (3 * i))
            if i == 1 and not inflected:
                s.add(plural(g, thousands))
            else:
                s.add(forms[0] if rng is None else rng.choice(forms))
        return s

    return spell, 10 ** (top + 3)


SPELLERS = {"en": (spell_en, 10**24), "es": (spell_es, 10**84), "hi": (spell_hi, 10**13)}
SPELLERS["ru"] = _slavic("ru")
SPELLERS["uk"] = _slavic("uk")


def spell(lang, n, rng=None):
    return SPELLERS[lang][0](n, rng)


def limit(lang):
    return SPELLERS[lang][1]


# ------------------------------------------------------------------ random integers


def structured(rng, limit, max_groups=None):
    """Integers that exercise every shape of three-digit group and every zero pattern."""
    digits = len(str(limit)) - 1
    total_groups = (digits + 2) // 3
    count = rng.randint(1, min(total_groups, max_groups or total_groups))
    if rng.random() < 0.5:
        count = min(count, rng.randint(1, 4))
    n = 0
    for _ in range(count):
        shape = rng.randrange(9)
        if shape <= 1:
            g = 0
        elif shape == 2:
            g = rng.randint(1, 9)
        elif shape == 3:
            g = rng.randint(10, 19)
        elif shape == 4:
            g = 10 * rng.randint(2, 9) + rng.choice([0, rng.randint(1, 9)])
        elif shape == 5:
            g = 100 * rng.randint(1, 9)
        elif shape == 6:
            g = 100 * rng.randint(1, 9) + rng.randint(1, 19)
        elif shape == 7:
            g = rng.choice([1, 999, 100, 101, 110, 111, 1, 1])
        else:
            g = rng.randint(0, 999)
        n = n * 1000 + g
    kind = rng.random()
    if kind < 0.08:
        n = 10 ** rng.randint(0, digits - 1) * rng.randint(1, 9) + rng.choice([0, 1, -1])
    elif kind < 0.12:
        n = rng.randrange(limit)
    return n % limit


def selftest():
    """The spellers only use words of the lexicon, and agree with a naive evaluation of
    canonical text; run by --setup."""
    rng = random.Random(7)
    for lang in LANGS:
        lex = L[lang]
        for _ in range(2000):
            n = structured(rng, limit(lang))
            for r in (None, rng):
                for w in spell(lang, n, r).words:
                    assert w in lex.value, (lang, n, w)
    assert spell_en(342).text() == "three hundred forty-two"
    assert spell_es(2147483647).text() == (
        "dos mil ciento cuarenta y siete millones cuatrocientos ochenta y tres mil "
        "seiscientos cuarenta y siete")
    assert spell_hi(1432524).text() == "चौदह लाख बत्तीस हज़ार पाँच सौ चौबीस"
    assert spell("ru", 21000073).text().split()[:2] == ["двадцать", "один"]
