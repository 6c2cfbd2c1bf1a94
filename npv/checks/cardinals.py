"""C01-C06: every number a user can spell is read exactly."""

from .. import core, lexicon as lx, words as wd

SCALE = {"quick": 1, "thorough": 12}


def spaced(rng, spelling, p=0.1):
    """Text of a spelling, sometimes with unusual white space, always with its joiners."""
    out = []
    for join, word in zip(spelling.joins, spelling.words):
        if " " in join and rng.random() < p:
            join = join.replace(" ", wd.space(rng, 0.2))
        out.append(join + word)
    return "".join(out)


def pairs(lang):
    """Every two words that can stand side by side in one number: (first, between, second, value)."""
    lex = lx.L[lang]
    glue = {"en": (" ", "-"), "es": (" y ",)}.get(lang, (" ",))
    scales = {w: v for w, v in lex.powers.items() if v > 100}
    hundred = {w: v for w, v in lex.value.items() if v == 100}
    for a in lex.words:
        x = lex.value[a]
        for b in lex.words:
            y = lex.value[b]
            if b in scales:
                if 0 < x < 1000 or (x == 1000 and y > 1000 and lang == "es" and y <= 10**60):
                    yield a, " ", b, x * y
            elif a in scales:
                if 0 < y < 1000:
                    yield a, " ", b, x + y
            elif b in hundred and lang in ("en", "hi"):
                if 0 < x < 100:
                    yield a, " ", b, x * y
            elif x >= 100 and 0 < y < 100:
                yield a, " ", b, x + y
            elif a in lex.tens and 0 < y < 10 and x % 10 == 0:
                for g in glue:
                    yield a, g, b, x + y


class Cardinal(core.Prop):
    lang = None
    amount = 10000
    dense = 4000

    required = ("word", "dense", "scale", "random", "boundary", "pair", "scales")

    def __init__(self):
        self.values = set()
        self.word_forms = set()

    @property
    def rule(self):
        return (
            "Integers 0 <= n < 10^%d spelled in the language: all of 0..dense, every shipped word on "
            "its own, every scale word with many factors and remainders, every two words that can stand side by side (alone and below a larger scale), every two scale words, boundaries around the "
            "constants of the code and the powers of ten, and random numbers over every shape of "
            "digit group, with the spelling variants, letter cases and white space users write. "
            "Non-trivial: n spelled with two words or more." % (len(str(lx.limit(self.lang))) - 1))

    def case(self, rng, k, n, spelling=None, text=None):
        if text is None:
            text = spaced(rng, spelling)
            text = wd.recase(rng, text, 0.15)
            if self.lang == "uk":
                text = wd.apostrophes(rng, text)
            if rng.random() < 0.05:
                text = wd.space(rng, 0.3) + text + wd.space(rng, 0.3)
        return {"k": k, "n": n, "text": text, "w": len(spelling.words) if spelling else 1}

    def spell(self, n, rng):
        return lx.spell(self.lang, n, rng)

    def cases(self, rng, tier, shard, nshards):
        lang, lex, limit = self.lang, lx.L[self.lang], lx.limit(self.lang)
        scale = SCALE[tier]
        # every word on its own
        for i, w in enumerate(lex.words):
            if i % nshards == shard:
                yield self.case(rng, "word", lex.value[w], text=w)
                yield self.case(rng, "word", lex.value[w], text=w.upper())
        # dense
        for n in range(shard, self.dense * scale, nshards):
            yield self.case(rng, "dense", n, self.spell(n, None))
            yield self.case(rng, "dense", n, self.spell(n, rng))
        # scale words
        for i, (w, v) in enumerate(sorted(lex.powers.items())):
            for r in range(6 * scale):
                if (i + r) % nshards != shard:
                    continue
                k = rng.choice([1, 2, rng.randint(1, 9), rng.randint(10, 99),
                                rng.randint(100, 999)])
                if v == 100:
                    k = k % 99 + 1
                s = self.spell(k, rng)
                text = s.text() + " " + w
                n = k * v
                if r % 2 and v > 100:
                    rest = lx.structured(rng, min(v, limit))
                    if rest:
                        t = self.spell(rest, rng)
                        text += " " + t.text()
                        n += rest
                elif r % 2:
                    rest = rng.randint(1, 99)
                    text += " " + self.spell(rest, rng).text()
                    n += rest
                yield {"k": "scale", "n": n, "text": text, "w": 3}
        # neighbouring words
        for i, (a, join, b, n) in enumerate(pairs(lang)):
            if i % nshards == shard and n < limit:
                text = a + join + b
                above = [v for v in lex.powers.values() if v > 1000 * n and v > 100 and v * 1000 <= limit]
                if above and rng.random() < 0.4:
                    k, v = rng.choice([1, 2, rng.randint(1, 99)]), rng.choice(above)
                    text = self.spell(k * v, rng).text() + " " + text
                    n += k * v
                if self.lang == "uk":
                    text = wd.apostrophes(rng, text)
                yield {"k": "pair", "n": n, "text": text, "w": 2}
        # two scale words in one number
        scales = sorted((w for w, v in lex.powers.items() if v > 100), key=lambda w: (lex.powers[w], w))
        for i, (a, b) in enumerate((a, b) for a in scales for b in scales if lex.powers[a] > lex.powers[b]):
            if i % nshards == shard:
                j, k = (rng.choice([rng.randint(2, 9), rng.randint(10, 99)]) for _ in "jk")
                rest = rng.choice([0, 0, rng.randint(1, 99)])
                n = j * lex.powers[a] + k * lex.powers[b] + rest
                text = "%s %s %s %s" % (self.spell(j, rng).text(), a, self.spell(k, rng).text(), b)
                if rest:
                    text += " " + self.spell(rest, rng).text()
                if n < limit:
                    yield {"k": "scales", "n": n, "text": text, "w": 4}
        # boundaries
        bounds = set()
        for e in range(0, len(str(limit)) - 1):
            for d in (1, 2, 9):
                for o in (-2, -1, 0, 1, 2, 10, 99, 100, 101, 999, 1000, 1001):
                    bounds.add(d * 10**e + o)
            for f in range(0, e):
                bounds.add(10**e + 10**f)
        for c in core.mined_constants()[0]:
            for o in (-1, 0, 1):
                bounds.add(c + o)
                bounds.add(c * 1000 + o)
                bounds.add(c * 7 + o)
        for i, n in enumerate(sorted(b for b in bounds if 0 <= b < limit)):
            if i % nshards == shard:
                yield self.case(rng, "boundary", n, self.spell(n, rng))
        for _ in range(self.amount * scale // nshards):
            n = lx.structured(rng, limit)
            yield self.case(rng, "random", n, self.spell(n, rng))

    def judge(self, case, api):
        text, n = case["text"], case["n"]
        self.values.add(n)
        got = api.number(text, self.lang)
        if not got.is_(n):
            return "parse_number(%r, %r) is %r, not %d" % (text, self.lang, got, n)
        got = api.parse(text, self.lang)
        if not got.is_(str(n)):
            return "parse(%r, %r) is %r, not %r" % (text, self.lang, got, str(n))
        return None

    def nontrivial(self, case):
        return case["w"] > 1

    def extra(self):
        return {"distinct_values": self.values,
                "longest_value_digits": max((len(str(v)) for v in self.values), default=0)}


class C01(Cardinal):
    id, lang, amount, dense = "C01", "en", 100000, 12000


class C02(Cardinal):
    id, lang, amount, dense = "C02", "es", 60000, 8000


class C03(Cardinal):
    id, lang, amount, dense = "C03", "hi", 40000, 12000


class C04(Cardinal):
    id, lang, amount, dense = "C04", "ru", 40000, 6000


class C05(Cardinal):
    id, lang, amount, dense = "C05", "uk", 24000, 4000


class C06(core.Prop):
    id = "C06"
    rule = ("English ordinals of 0 <= n < 10^24 (all of 0..dense, boundaries, random numbers in every "
            "spelling variant, case and white space) read by parse_ordinal, and the cardinal of the "
            "same n. Non-trivial: two words or more.")
    required = ("word", "dense", "boundary", "random", "cardinal", "pair")

    def cases(self, rng, tier, shard, nshards):
        scale = SCALE[tier]
        limit = lx.limit("en")

        def one(k, n, r, ordinal=True):
            s = lx.spell_en(n, r, ordinal=ordinal)
            text = wd.recase(rng, spaced(rng, s), 0.2)
            if rng.random() < 0.05:
                text = wd.space(rng, 0.3) + text + wd.space(rng, 0.3)
            return {"k": k, "n": n, "text": text, "w": len(s.words)}

        for i, (w, v) in enumerate(sorted(lx.ORDINAL_VALUE.items())):
            if i % nshards == shard:
                for t in (w, w.upper(), w.title()):
                    yield {"k": "word", "n": v, "text": t, "w": 1}
        for n in range(shard, 12000 * scale, nshards):
            yield one("dense", n, None)
            yield one("dense", n, rng)
        for i, (a, join, b, n) in enumerate(pairs("en")):
            if i % nshards == shard:
                yield {"k": "pair", "n": n, "text": a + join + lx.ORDINAL_OF[b], "w": 2}
        bounds = set()
        for e in range(24):
            for d in range(1, 10):
                for o in (-1, 0, 1, 2, 3, 5, 8, 9, 12, 20, 23, 30, 80, 90, 100, 1000):
                    bounds.add(d * 10**e + o)
        for c in core.mined_constants()[0]:
            bounds.update((c - 1, c, c + 1, 7 * c))
        for i, n in enumerate(sorted(b for b in bounds if 0 <= b < limit)):
            if i % nshards == shard:
                yield one("boundary", n, rng)
        for _ in range(100000 * scale // nshards):
            yield one("random", lx.structured(rng, limit), rng)
        for _ in range(20000 * scale // nshards):
            yield one("cardinal", lx.structured(rng, limit), rng, ordinal=False)

    def judge(self, case, api):
        got = api.ordinal(case["text"], "en")
        if not got.is_(case["n"]):
            return "parse_ordinal(%r, 'en') is %r, not %d" % (case["text"], got, case["n"])
        return None

    def nontrivial(self, case):
        return case["w"] > 1
