"""Hostile and random texts, with the literals of the code under test as a dictionary."""

import re
import sys
import unicodedata

from . import core, lexicon as lx, words as wd

_STRINGS = None


def dictionary():
    global _STRINGS
    if _STRINGS is None:
        _STRINGS = [s for s in core.mined_constants()[1] if len(s) <= 24] or ["x"]
    return _STRINGS


_WORDS = None


def literal(rng, p=0.04):
    """Now and then a plain word the code mentions that is no number word or conjunction of any language."""
    global _WORDS
    if _WORDS is None:
        _WORDS = sorted({w for s in dictionary() for w in re.findall("[A-Za-zА-Яа-яіїєґ]{3,}", s)
                         if not lx.contains_numberish(lx.plain(w))
                         and lx.plain(w) not in [lx.plain(x) for v in wd.SKIPS.values() for x in v]})
    return rng.choice(_WORDS) if _WORDS and rng.random() < p else None


DIGITS = [c for c in map(chr, range(sys.maxunicode + 1)) if unicodedata.category(c) == "Nd"]
DIGIT_SCRIPTS = sorted({ord(c) - unicodedata.decimal(c) for c in DIGITS})
NUMERIC_NOT_DECIMAL = [
    c for c in map(chr, range(sys.maxunicode + 1))
    if (c.isnumeric() or c.isdigit()) and not c.isdecimal()
]
WHITESPACE = [c for c in map(chr, range(sys.maxunicode + 1)) if c.isspace()]
COMBINING = ["\u0300", "\u0301", "\u0302", "\u0303", "\u0308", "\u0327", "\u093c", "\u0902",
             "\u0901", "\u200d", "\u200c", "\u0940", "\u094d", "\u20dd", "\ufe0f"]
RANGES = [(0x20, 0x7e), (0, 0x1f), (0xa0, 0x17f), (0x300, 0x36f), (0x400, 0x4ff), (0x900, 0x97f),
          (0x2000, 0x206f), (0x3040, 0x30ff), (0x4e00, 0x4eff), (0xac00, 0xacff), (0x600, 0x6ff),
          (0x2150, 0x218f), (0x1d7ce, 0x1d7ff), (0x1f600, 0x1f64f), (0xd800, 0xdfff),
          (0xff00, 0xffef), (0xe0000, 0xe007f)]


def char(rng):
    if rng.random() < 0.08:
        return chr(rng.randrange(0x110000))
    if rng.random() < 0.03:
        return rng.choice("\ufeff\u200b\x00\ufe0f\uffff\ufffd\r\n\u2028")
    lo, hi = rng.choice(RANGES)
    return chr(rng.randint(lo, hi))


def random_unicode(rng, n):
    if rng.random() < 0.5:
        lo, hi = rng.choice(RANGES)
        return "".join(chr(rng.randint(lo, hi)) if rng.random() < 0.85 else " " for _ in range(n))
    return "".join(char(rng) for _ in range(n))


ORDINALS = sorted(lx.ORDINAL_VALUE)


def token(rng, lang=None):
    k = rng.random()
    if k < 0.42:
        lex = lx.L[lang or rng.choice(lx.LANGS)]
        return rng.choice(lex.words)
    if k < 0.44:
        return near(rng, lang or rng.choice(lx.LANGS))
    if k < 0.5:
        return rng.choice(wd.SKIPS[lang] or ["and"]) if lang else rng.choice(["and", "-", "y"])
    if k < 0.56:
        return rng.choice(ORDINALS)
    if k < 0.68:
        return rng.choice(wd.FILLER[lang or rng.choice(lx.LANGS)])
    if k < 0.74:
        return rng.choice(wd.PUNCT)
    if k < 0.79:
        return rng.choice([".", ",", "-", "'", "’", "/"])
    if k < 0.84:
        return str(rng.randint(0, 10 ** rng.randint(1, 30)))
    if k < 0.87:
        return "".join(rng.choice(DIGITS) for _ in range(rng.randint(1, 4)))
    if k < 0.9:
        return rng.choice(NUMERIC_NOT_DECIMAL)
    if k < 0.95:
        return rng.choice(dictionary())
    return mutate(rng, rng.choice(lx.L[lang or rng.choice(lx.LANGS)].words))


INVISIBLE = "\u200b\u200c\u200d\u2060\ufeff\u180e\u061c\u200e\u200f\u00ad\x00\x7f"


def mutate(rng, word):
    w = list(word)
    for _ in range(rng.randint(1, 3)):
        i = rng.randrange(len(w) + 1)
        k = rng.randrange(8)
        if k == 7:
            w.insert(i, rng.choice(INVISIBLE))
        elif k == 0 and w:
            del w[min(i, len(w) - 1)]
        elif k == 1:
            w.insert(i, rng.choice(COMBINING))
        elif k == 2:
            w.insert(i, "\xad")
        elif k == 3:
            w.insert(i, rng.choice("'’ʼ-_·"))
        elif k == 4 and w:
            j = min(i, len(w) - 1)
            w[j] = w[j].upper()
        elif k == 5 and w:
            j = min(i, len(w) - 1)
            w.insert(j, w[j])
        else:
            w.insert(i, char(rng))
    return "".join(w)


def soup(rng, n, lang=None):
    """n tokens; the joiner is usually a space but may be anything."""
    out = []
    for _ in range(n):
        t = token(rng, lang)
        k = rng.random()
        if k < 0.08:
            t = wd.recase(rng, t, 1.0)
        elif k < 0.12:
            t = unicodedata.normalize(rng.choice(["NFD", "NFKD", "NFC"]), t)
        out.append(t)
        j = rng.random()
        if j < 0.75:
            out.append(" ")
        elif j < 0.83:
            out.append(rng.choice(WHITESPACE))
        elif j < 0.9:
            out.append(rng.choice([", ", ". ", "-", " - ", "; ", ",", "."]))
        elif j < 0.95:
            out.append("")
        else:
            out.append(rng.choice(["  ", "\t", "\n"]))
    return "".join(out)


def text(rng, lang=None, longest=300):
    k = rng.random()
    if k < 0.02:
        return "".join(rng.choice(WHITESPACE) for _ in range(rng.randint(0, 4)))
    if k < 0.2:
        return random_unicode(rng, rng.randint(1, 40))
    if k < 0.55:
        return soup(rng, rng.randint(1, 9), lang)
    if k < 0.72:
        return soup(rng, rng.randint(1, 9), None)
    if k < 0.8:
        return mutate(rng, soup(rng, rng.randint(1, 6), lang))
    if k < 0.88:
        t = token(rng, lang)
        return rng.choice([" ", "", "-", ", ", ". "]).join([t] * rng.randint(2, 30))
    if k < 0.93:
        return " ".join(rng.choice(dictionary()) for _ in range(rng.randint(1, 6)))
    if k < 0.97:
        return soup(rng, rng.randint(1, 4), lang) + rng.choice(
            [" over ", " by ", "/", " divided by ", " divided  BY "]) + soup(rng, rng.randint(1, 4), lang)
    return soup(rng, rng.randint(10, max(11, longest // 6)), lang)


_ALPHA = None


def rewritten(rng, word, some=12):
    """Words that substitutions made with the literals of the code might take for `word`."""
    global _ALPHA
    if _ALPHA is None:
        _ALPHA = sorted({p for s in dictionary() for p in re.findall(r"[^\W\d_]+", s)
                         if len(p) <= 12})
    out = set()
    parts = [p for p in _ALPHA if len(p) > 1 and p in word] or [word[-2:], word[:2]]
    for p in parts:
        for q in _ALPHA:
            out.add(word.replace(p, q))
            out.add(word.replace(p, q, 1))
    out = sorted(out)
    if len(out) > some:
        out = rng.sample(out, some)
    affixes = rng.sample(_ALPHA, min(6, len(_ALPHA)))
    for q in affixes:
        i = rng.randrange(len(word) + 1)
        out += [word + q, q + word, word[:i] + q + word[i:]]
    return [w for w in out if w and w != word]


SUFFIXES = {
    "en": "s es ed ing ish fold some th ths ieth st nd rd ly er ers teen ty y plex n't ness ed's".replace("'", "").split(),
    "es": "s es a as os avo ava ón ísimo ito ena enas ésimo mente".split(),
    "hi": "ों वां वाँ वीं वें गुना ए ी े ा ि ु ू ृ ै ौ ॅ ॆ ॊ ॄ".split(),
    "ru": "й я е ы и у ой ою ого ые ых ка ю жды ый ая ик ник кратно".split(),
    "uk": "й я е и і у ою ого их ка ю чі ий а ик ник кратно".split(),
}
COMMON = {
    "en": "fourty ninty fourtieth twelvth fivth fith eigth eigthy fiveteen thirt fourtyeth ninetyth twentyth tenn won too for ate "
          "hunderd hundret thousend milion billon trilion zeroth nought nil naught half once twice thrice dozens couple "
          "quadrilion zillion gazillion umpteen fiftyth sixt II IV VII XIV XXI MCMX iii xiv bithousand grand k m bn lakh crore score gross "
          "double triple quadruple single pair trio duo quartet twain ane yan tan tethera milliard mil mln mio mrd thou hunnert eleventy "
          "several few many oh o love duck zip zilch naughty ought aught infinity pi e dozenth fortnight century decade millennium "
          "hundo ton percent pct wan fower sax saxty tree tirty noo an' oneteen twoteen tenty onety sixhundred onehundred "
          "eins deux drei quatre cinq sept huit neuf zehn cent mille uno due tre quattro um dois três een twee drie vier sto".split(),
    "es": "cientto dosciento quinentas quinietos setnta sietecientos nuevecientos cincocientos medio media docena par "
          "primero segundo tercero cuarto quinto décimo veinteiuno treintauno treinticinco noventiseis diezmil bimillón "
          "doble triple cuádruple pareja trío dúo decena quincena veintena centena centenar millar millares ambos varios mitad tercio "
          "ningún alguno pico cuatrillón um dois três quatro sete oito nove dez vint trenta cent "
          "unas unos dosmil tresmil cienmil milésimo centésimo doceavo veinteavo primer tercer septimo sexto octavo noveno".split(),
    "hi": "पहला दूसरा तीसरा चौथा पांचवां आधा डेढ़ ढाई सवा पौने दर्जन जोड़ी नील पद्म शंख मिलियन बिलियन दहाई सैकड़ा "
          "सैकड़ों हजारों करोड़ों चौथाई तिहाई दुगुना तिगुना एकाध पहली दूसरी तीसरी छठा सातवाँ इक शून्यता वन टू थ्री".split(),
    "ru": "первый второй третий тыщи тыщу пятьдесять шестьсто полтора полторы половина пара дюжина пол сотня сотни "
          "десяток тыща мильон лимон двоечка единица "
          "оба обе обеих двое трое четверо пятеро шестеро семеро восьмеро девятеро десятеро двойка тройка пятёрка десятка сотка тыс млн млрд "
          "тыс. миллиардный стольник полсотни полтораста четверть треть раз нуль нулевой одиннадцатая двадцатый "
          "немного много несколько двойной тройной пятак червонец кило мега ещё столько сколько".split(),
    "uk": "перший другий третій тищі пятсто шістьсто півтора половина пара дюжина пів сотня сотні десяток мільен одиниця "
          "обидва обидві двоє троє четверо п'ятеро шестеро семеро восьмеро дев'ятеро десятеро двійка трійка десятка тис млн млрд "
          "півтораста чверть третина раз нулевий двадцятий одинадцятий кілька багато подвійний потрійний ще стільки скільки пара купа".split(),
}


def misspellings(lang, word):
    """The word with a letter lost, doubled or swapped, or with an ending it does not take."""
    out = set()
    for i in range(len(word)):
        out.add(word[:i] + word[i + 1:])
        out.add(word[:i] + word[i] + word[i:])
        out.add(word[:i] + word[i + 1:i + 2] + word[i] + word[i + 2:])
    out.update(word + s for s in SUFFIXES[lang])
    for i in range(0, len(word), 2):  # drawn out
        out.add(word[:i] + word[i] * (3 + (i + len(word)) % 5) + word[i + 1:])
    if lang == "en":
        out.update(w for a, b in (("ve", "f"), ("f", "v"), ("ty", "ti"), ("y", "ie"), ("een", "eeen"), ("ou", "o"), ("ei", "ie"))
                   for w in [word.replace(a, b)])
    return sorted(w for w in out if w != word and w and not lx.numberish(w, lang)
                  and not lx.numberish(w.lower(), lang)
                  and unicodedata.category(w[0])[0] != "M"
                  and all(c.isalpha() or unicodedata.category(c)[0] == "M" for c in w))


def near(rng, lang):
    """A word that is nearly a number word of the language."""
    if rng.random() < 0.3:
        w = rng.choice(COMMON[lang])
        return w if not lx.numberish(w, lang) else "umpteen"
    words = lx.L[lang].words
    return rng.choice(misspellings(lang, rng.choice(ORDINALS if lang == "en" and rng.random() < 0.4 else words)) or ["umpteen"])


_HOMOGLYPHS = {}
for _a, _b in ("aа", "eе", "oо", "pр", "cс", "xх", "yу", "iі", "kк", "mм", "tт", "hн", "sѕ"):
    _HOMOGLYPHS.setdefault(_a, []).append(_b)
    _HOMOGLYPHS.setdefault(_b, []).append(_a)
_COMPAT = {}
for _i in range(sys.maxunicode + 1):
    _k = unicodedata.normalize("NFKD", chr(_i))
    if _k != chr(_i) and _k != unicodedata.normalize("NFD", chr(_i)) and chr(_i).isalpha() and (
            1 <= len(_k) <= 3 and _k.islower() and _k.isalpha()):
        _COMPAT.setdefault(_k, []).append(chr(_i))


def imitation(rng, word):
    """The word with letters that only look like its own, or are compatible with them: another word."""
    compat = rng.random() < 0.5
    table = _COMPAT if compat else _HOMOGLYPHS
    places = [(i, n) for i in range(len(word)) for n in (1, 2, 3) if word[i:i + n] in table
              and len(word[i:i + n]) == n]
    if not places:
        return None
    for i, n in sorted(rng.sample(places, rng.randint(1, min(3, len(places)))), reverse=True):
        if word[i:i + n] in table:
            word = word[:i] + rng.choice(table[word[i:i + n]]) + word[i + n:]
    return word


_FOLDED = {}
for _i in range(0x80, 0x20000):
    _c = chr(_i)
    if _c.isalpha():
        for _k in {_c.casefold(), _c.upper().lower(), _c.title().lower()} - {_c, _c.lower()}:
            _FOLDED.setdefault(_k, []).append(_c)


def folded(word):
    """Every word with one letter (two, ligature) that only becomes its own under full case folding."""
    for i in range(len(word)):
        for n in (1, 2, 3):
            for c in _FOLDED.get(word[i:i + n], ()) if i + n <= len(word) else ():
                yield word[:i] + c + word[i + n:]


def max_digit_run(s):
    best = run = 0
    for c in s:
        run = run + 1 if c.isdecimal() else 0
        best = max(best, run)
    return best
