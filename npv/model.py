"""Reference reading of a run of number words, and expected text of a sentence.

The grammar below is the rule of the README's "ambiguous cases" written down from the
point of view of the reader of the text: it works on (class, value) pairs from the
frozen lexicon and shares nothing with the code under test.
"""

import re

from . import lexicon as lx


class Reader:
    """Reads words one at a time; `numbers` are the finished values."""

    def __init__(self, lang):
        self.lex = lx.L[lang]
        # es: "mil" works inside a group of six digits; elsewhere only "hundred" works
        # inside the group of three
        self.inside_group = 1000 if lang == "es" else 100
        self.items = []
        self.skips = []
        self.start()

    def start(self):
        self.parts = []  # closed parts, highest multiplier first
        self.group = 0
        self.last = None  # (class, value) of the previous word of this number
        self.ceiling = None  # the multiplier that closed the last part

    def value(self):
        return sum(self.parts) + self.group

    def finish(self):
        self.items.append(self.value())
        self.start()

    def word(self, w):
        w = lx.plain(w)
        cls, v = self.lex.plain_cls[w], self.lex.plain_value[w]
        if self.last is not None and not self.fits(cls, v):
            self.finish()
            self.items.extend(self.skips)
        self.skips = []
        if cls == "powers":
            self.multiply(v)
        else:
            self.group += v
        self.last = (cls, v)

    def fits(self, cls, v):
        before = self.last[0]
        small = ("units", "direct")
        if cls == "units":
            return before not in small
        if cls == "direct":
            return before not in small and before != "tens"
        if cls == "tens":
            return before not in small and before != "tens"
        if cls == "hundreds":
            return before == "powers"
        if v != 100 and v > self.value():
            return True
        if v <= self.group:
            return False
        if self.value() - self.group and self.ceiling is not None and v >= self.ceiling:
            return False
        return True

    def multiply(self, v):
        whole = self.value()
        if whole and v > whole and v != 100:
            self.parts, self.group, self.ceiling = [whole * v], 0, v
            return
        if self.group == 0:
            zero = self.last is not None and self.last[1] == 0
            self.group = 0 if zero else 1
        self.group *= v
        if v > self.inside_group:
            self.parts.append(self.group)
            self.group, self.ceiling = 0, v

    def skip(self, w):
        if self.last is not None:
            self.skips.append(w)

    def done(self):
        if self.last is not None:
            self.finish()
        tail, self.skips = self.skips, []
        return self.items + tail


def read(lang, words, skips=()):
    r = Reader(lang)
    for w in words:
        if w.lower() in skips:
            r.skip(w)
        else:
            r.word(w)
    return r.done()


def hard_boundary(lang, last_word, first_word):
    """True when no number has `first_word` right after `last_word`."""
    lex = lx.L[lang]
    a, b = lex.plain_cls[lx.plain(last_word)], lex.plain_cls[lx.plain(first_word)]
    small = ("units", "direct")
    if b == "units":
        return a in small
    if b in ("direct", "tens"):
        return a in small or a == "tens"
    if b == "hundreds":
        return a != "powers"
    return False


# ------------------------------------------------------------------ expected texts


class Expect:
    """A text and the pattern of its conversion."""

    def __init__(self):
        self.text = []
        self.pattern = []
        self.after_number = False  # nothing but white space and conjunctions since a number
        self.numbers = 0
        self.hyphens = []  # where the pattern holds hyphens since then

    def lit(self, s):
        self.text.append(s)
        self.pattern.append(re.escape(s))

    def word(self, s):
        self.lit(s)
        self.after_number = False

    def skip(self, s):
        self.lit(s)
        if s == "-":
            self.hyphens.append(len(self.pattern) - 1)

    def space(self, s):
        self.text.append(s)
        if self.after_number and s and s != " ":
            self.pattern.append("(?:%s| )" % re.escape(s))
        else:
            self.pattern.append(re.escape(s))

    def number(self, text, n):
        if self.after_number:
            # a hyphen between two numbers may be set off by spaces
            for i in self.hyphens:
                self.pattern[i] = " ?" + re.escape("-") + " ?"
        self.hyphens = []
        self.text.append(text)
        self.pattern.append(str(n))
        self.after_number = True
        self.numbers += 1

    def source(self):
        return "".join(self.text)

    def regex(self):
        return "".join(self.pattern)


_PIECE = re.compile(r"\\s\*|\(\?:((?:\\.|[^\\()|])*)\|((?:\\.|[^\\()|])*)\)|(?:\\(\W|_)|([^\\()|?*+\[\]{}^$.]))(\?)?",
                    re.S)
_UNESCAPE = re.compile(r"\\(.)", re.S)


def matches(regex, got):
    """Whether all of `got` matches, in time linear in its length.

    The expected texts are made of literals, optional literals, choices of two literals and
    runs of blanks; all positions reachable after each piece are kept, so that nothing is ever
    tried twice.
    """
    places = {0}
    at = 0
    n = len(got)
    while at < len(regex):
        m = _PIECE.match(regex, at)
        if m is None:
            raise ValueError("expected text not understood: %r" % regex[at:at + 40])
        at = m.end()
        a, b, escaped, plain, optional = m.groups()
        if a is not None:
            choices = (_UNESCAPE.sub(r"\1", a), _UNESCAPE.sub(r"\1", b))
            places = {p + len(c) for p in places for c in choices if got.startswith(c, p)}
        elif escaped is None and plain is None:
            reached = set()
            for p in places:
                while p not in reached:
                    reached.add(p)
                    if p < n and got[p].isspace():
                        p += 1
            places = reached
        else:
            c = plain if escaped is None else escaped
            on = {p + 1 for p in places if p < n and got[p] == c}
            places = places | on if optional else on
        if not places:
            return False
    return n in places
