"""C07: fractions."""

from .. import core, fuzz, lexicon as lx, words as wd
from .cardinals import spaced

SEPS = ["/", "over", "by", "divided by"]


#: what does not separate the sides of a fraction
OTHERS = ["\u2044", "\u2215", "\u00f7", ":", "\\", "|", "\uff0f", "\u29f8", "per", "out of", "on", "upon", "to", "in", "of", "-",
          "and", "//", "/ /", "divided", "divide by", "dividedby", "divided-by", "divided, by", "times", "is", "=", ",", ".", "%", "+", "overs", "bye",
          "over by", "by the", "with", "ovеr", "b y", "\u00bd", "through", "between", "ratio", "point", "half", "third"]


def native(rng, digits):
    """The same digits of another script."""
    base = rng.choice(fuzz.DIGIT_SCRIPTS)
    return "".join(chr(base + int(c)) for c in digits)


def separator(rng, sep):
    if sep == "divided by":
        sep = "divided" + wd.space(rng, 0.7) + "by"
    return wd.recase(rng, sep, 0.3)


class C07(core.Prop):
    id = "C07"
    rule = ("Pairs of English numbers (spelled in every variant, or digits, 0 <= a, 1 <= b < 10^24, "
            "including reducible ones) around each separator in every case and spacing give 'a/b'; "
            "the same with a spoiled side, no separator or two separators give None. Non-trivial: a "
            "side of two words or more, or a rejected text.")
    required = ("fraction", "digits", "auto", "no-separator", "two-separators", "bad-side",
                "empty-side", "dense")

    def side(self, rng, n):
        if rng.random() < 0.12:
            d = "0" * rng.choice([0, 0, 0, 0, 1, 3]) + str(n)
            return d if rng.random() < 0.7 else native(rng, d)
        return wd.recase(rng, spaced(rng, lx.spell_en(n, rng)), 0.15)

    def join(self, rng, a, sep, b, glued=False):
        sp = lambda: wd.space(rng, 0.75)
        s = separator(rng, sep)
        if (sep == "/" and rng.random() < 0.4) or (glued and rng.random() < 0.06):
            l, r = rng.choice([("", ""), (" ", ""), ("", " ")])
        else:
            l, r = sp(), sp()
        text = a + l + s + r + b
        if rng.random() < 0.05:
            text = wd.space(rng, 0.3) + text + wd.space(rng, 0.3)
        return text

    def pick(self, rng):
        kind = rng.random()
        if kind < 0.5:
            return rng.randint(1, 120)
        return max(1, lx.structured(rng, 10**24))

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 10
        i = 0
        for a in range(0, 60 if tier == "quick" else 130):
            for b in range(1, 60 if tier == "quick" else 130):
                i += 1
                if i % nshards == shard:
                    sep = SEPS[(a + b + rng.randrange(4)) % 4]
                    yield {"k": "dense", "want": "%d/%d" % (a, b), "lang": "en",
                           "text": lx.spell_en(a).text() + " " + sep + " " + lx.spell_en(b).text()}
        for c in core.mined_constants()[0]:
            if 0 < c < 10**24:
                for sep in SEPS:
                    for a, b in ((c, 7), (7, c), (c, c)):
                        i += 1
                        if i % nshards == shard:
                            yield {"k": "dense", "want": "%d/%d" % (a, b), "lang": "en",
                                   "text": lx.spell_en(a, rng).text() + " " + sep + " "
                                   + lx.spell_en(b, rng).text()}
        for _ in range(30000 * scale // nshards):
            a, b = self.pick(rng), self.pick(rng)
            if rng.random() < 0.05:
                a = 0
            if rng.random() < 0.3:
                g = rng.randint(2, 12)
                a, b = (a * g) % 10**24, max(1, (b * g) % 10**24)
            sep = rng.choice(SEPS)
            kind = rng.random()
            if kind < 0.45:
                yield {"k": "fraction", "lang": "en", "want": "%d/%d" % (a, b),
                       "text": self.join(rng, self.side(rng, a), sep, self.side(rng, b), True)}
            elif kind < 0.5:
                yield {"k": "digits", "lang": rng.choice(["en", None]), "want": "%d/%d" % (a, b),
                       "text": self.join(rng, str(a), sep, str(b), True)}
            elif kind < 0.6:
                yield {"k": "auto", "lang": None, "want": "%d/%d" % (a, b),
                       "text": self.join(rng, lx.spell_en(a, rng).text(), sep,
                                         lx.spell_en(b, rng).text())}
            elif kind < 0.68:
                junk = rng.choice(["", " cows", " one", " twenty two seven", "!", " is"])
                yield {"k": "no-separator", "lang": "en", "want": None,
                       "text": self.side(rng, a) + junk}
                # the way fractions are said
                under = lx.spell_en(rng.choice([b, rng.randint(2, 30)]), rng, ordinal=True).text()
                over = rng.choice([self.side(rng, a), lx.spell_en(rng.randint(1, 20)).text(), "a", "half a", "an"])
                yield {"k": "no-separator", "lang": "en", "want": None, "text": wd.recase(rng, rng.choice(
                    ["%s %s", "%s %ss", "%s-%s", "%s %ss of", "%s and %s", "%s quarter %s", "%s half %s", "%s  %ss"]) % (over, under), 0.2)}
                yield {"k": "no-separator", "lang": "en", "want": None,
                       "text": self.join(rng, self.side(rng, a), rng.choice(OTHERS), self.side(rng, b))}
            elif kind < 0.8:
                text = self.join(rng, self.side(rng, a), sep, self.side(rng, b))
                yield {"k": "two-separators", "lang": "en", "want": None,
                       "text": self.join(rng, text, rng.choice(SEPS), self.side(rng, self.pick(rng)))}
            elif kind < 0.95:
                sides = [self.side(rng, a), self.side(rng, b)]
                sides[rng.randrange(2)] = self.spoil(rng)
                yield {"k": "bad-side", "lang": "en", "want": None,
                       "text": self.join(rng, sides[0], sep, sides[1])}
            else:
                sides = [self.side(rng, a), self.side(rng, b)]
                sides[rng.randrange(2)] = rng.choice(["", " ", "\t"])
                yield {"k": "empty-side", "lang": "en", "want": None,
                       "text": self.join(rng, sides[0], sep, sides[1])}

    def spoil(self, rng):
        n = lx.spell_en(self.pick(rng), rng).text()
        kind = rng.randrange(7)
        if kind == 0:
            return n + rng.choice([" cows", " dollars", " first", " dos", " -five x"])
        if kind == 1:
            return "and " + n
        if kind == 2:
            return lx.spell_en(rng.randint(1, 9)).text() + " " + lx.spell_en(rng.randint(1, 19)).text()
        if kind == 3:
            return rng.choice(["cows", "seventh", "twenty third", "3.5", "$5", "-", "and", "uno", "x"])
        if kind == 4:
            return n + rng.choice(["!", ".", ",", "?", " %", ")"])
        if kind == 5:
            return "the " + n
        return n + " 5"

    def judge(self, case, api):
        got = api.fraction(case["text"], case["lang"])
        if not got.is_(case["want"]):
            return "parse_fraction(%r, %r) is %r, not %r" % (
                case["text"], case["lang"], got, case["want"])
        return None

    def nontrivial(self, case):
        return case["want"] is None or len(case["text"].split()) > 3
