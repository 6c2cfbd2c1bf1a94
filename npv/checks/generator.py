"""C20/C21: the language tables are what the sources say."""

import ast
import json
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

from .. import core, lexicon as lx

SCRIPT = os.path.join("number_parser_scripts", "write_complete_language_data.py")
RAW = os.path.join("number_parser_data", "raw_cldr_translation_data")
EXTRA = os.path.join("number_parser_data", "supplementary_translation_data")
DATA = os.path.join("number_parser", "data")

SITECUSTOMIZE = '''
import os, random
_r = random.Random(os.environ.get("NPV_SHUFFLE"))
_listdir, _scandir = os.listdir, os.scandir

def listdir(*a):
    names = sorted(_listdir(*a))
    _r.shuffle(names)
    return names

class _Scan:
    def __init__(self, entries):
        self.entries = entries
        self.it = iter(entries)
    def __iter__(self):
        return self.it
    def __next__(self):
        return next(self.it)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def close(self):
        pass

def scandir(*a):
    with _scandir(*a) as s:
        entries = sorted(s, key=lambda e: e.name)
    _r.shuffle(entries)
    return _Scan(entries)

_left = [int(os.environ.get("NPV_CUT_AT", "0"))]

def cut(event, args):
    if event == "open" and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR):
        _left[0] -= 1
        if _left[0] == 0:
            os._exit(9)

if _left[0]:
    import sys
    sys.addaudithook(cut)

if os.environ.get("NPV_SHUFFLE"):
    os.listdir, os.scandir = listdir, scandir
'''


def read_table(path):
    """The `info` a module defines, without importing it."""
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    found = []
    for node in tree.body:
        if isinstance(node, ast.Assign) and [getattr(t, "id", None) for t in node.targets] == ["info"]:
            found.append(node.value)
    if not found:
        raise ValueError("no info in %s" % path)
    return ast.literal_eval(found[-1])


def typed(x):
    """The value with its types, so that 1, 1.0 and True differ."""
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [typed(v) for v in x]
    return (type(x).__name__, x)


def difference(want, got):
    if typed(want) == typed(got):
        return None
    if not isinstance(got, dict):
        return "it is %r" % (got,)
    for key in sorted(set(want) | set(got)):
        a, b = want.get(key), got.get(key)
        if key not in want or key not in got:
            return "%s: expected %r, written %r" % (key, a, b)
        if typed(a) != typed(b):
            if isinstance(a, dict) and isinstance(b, dict):
                for w in sorted(set(a) | set(b)):
                    if w not in a or w not in b or typed(a[w]) != typed(b[w]):
                        return "%s[%r]: expected %r, written %r" % (key, w, a.get(w), b.get(w))
            return "%s: expected %r, written %r" % (key, a, b)
    return "they differ"


DRIVER = """
import importlib.util, sys

how, path = sys.argv[1:3]
ran = False
if how == "import":
    spec = importlib.util.spec_from_file_location("write_complete_language_data", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for _ in range(2):
        if hasattr(m, "write_complete_data"):
            m.write_complete_data()
            ran = True
if not ran:
    with open(path, encoding="utf-8") as f:
        exec(compile(f.read(), path, "exec"), {"__name__": "__main__", "__file__": path})
"""


class Tree:
    """A scratch copy of the generator with its own sources and targets."""

    def __init__(self, sources=True):
        self.root = tempfile.mkdtemp(prefix="npv-gen-")
        os.makedirs(os.path.join(self.root, DATA))
        shutil.copytree(os.path.join(core.REPO, "number_parser_scripts"),
                        os.path.join(self.root, "number_parser_scripts"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        if sources:
            shutil.copytree(os.path.join(core.REPO, "number_parser_data"),
                            os.path.join(self.root, "number_parser_data"))
        else:
            os.makedirs(os.path.join(self.root, RAW))
            os.makedirs(os.path.join(self.root, EXTRA))
        shutil.copy(os.path.join(core.REPO, DATA, "__init__.py"), self.path(DATA, "__init__.py"))
        os.makedirs(self.path("site"))
        with open(self.path("site", "sitecustomize.py"), "w") as f:
            f.write(SITECUSTOMIZE)
        os.makedirs(self.path("elsewhere"))

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def run(self, env=None, cwd="elsewhere", relative=False, file_limit=None, how="script"):
        e = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": self.path("site"),
             "PYTHONDONTWRITEBYTECODE": "1", "HOME": self.root}
        e.update(env or {})
        script = self.path(SCRIPT)
        if relative:
            script = os.path.relpath(script, self.path(cwd))
        def limit():
            import resource

            resource.setrlimit(resource.RLIMIT_FSIZE, (file_limit, file_limit))

        args = [script]
        if how == "module":
            e["PYTHONPATH"] += os.pathsep + self.root
            args = ["-m", os.path.splitext(SCRIPT)[0].replace("/", ".")]
        elif how != "script":
            if how == "import":  # a correct generator may leave finding its folders to the script part
                cwd = os.path.dirname(SCRIPT)
            args = [self.path("driver.py"), how, self.path(SCRIPT), "extra", "arguments"]
            with open(args[0], "w") as f:
                f.write(DRIVER)
        try:
            p = subprocess.run([sys.executable, *args], cwd=self.path(cwd), env=e, preexec_fn=limit if file_limit else None,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        except subprocess.TimeoutExpired:  # a run takes a second
            return 124, "still running after 200 s"
        return p.returncode, p.stderr.decode("utf-8", "replace")

    def tables(self):
        return {n[:-3]: self.path(DATA, n) for n in os.listdir(self.path(DATA))
                if n.endswith(".py") and n != "__init__.py"}

    def digest(self):
        h = hashlib.blake2b()
        for base in (RAW, EXTRA):
            for n in sorted(os.listdir(self.path(base))):
                with open(self.path(base, n), "rb") as f:
                    h.update(n.encode() + b"\0" + f.read() + b"\0")
        return h.hexdigest()

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


class C20(core.Prop):
    id = "C20"
    hang_guard = False
    min_evaluations = 8
    rule = ("Runs of the generator in a scratch copy: directory listings in shuffled orders, C/UTF-8/other "
            "locales with and without UTF-8 mode, hash seeds, working directories, relative and absolute "
            "invocation, empty, shipped, stale, edited, truncated, old, new and corrupted targets, repeated runs and runs after one that was cut short; each written table is "
            "compared with the shipped one (words, values, types, conjunctions, scale), and the sources "
            "must be untouched. Non-trivial: every run.")
    required = ("clean", "stale", "shuffled", "locale", "twice", "cut-short")

    def __init__(self):
        self.observed = {"tables_compared": 0, "words_compared": 0, "runs_cut_short": 0}

    def cases(self, rng, tier, shard, nshards):
        kinds = ["clean", "stale", "shuffled", "locale", "twice", "cut-short", "stale"]
        legacy = {"PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
        locales = [
            {"LC_ALL": "C", **legacy}, {"LC_ALL": "POSIX", **legacy}, {"LC_ALL": "C.UTF-8"},
            {"LANG": "tr_TR.UTF-8"}, {"PYTHONUTF8": "1"}, {**legacy},
            {"LC_ALL": "C", "PYTHONIOENCODING": "latin-1", **legacy},
            {"LC_ALL": "C", "PYTHONWARNINGS": "error", **legacy}, {"PYTHONOPTIMIZE": "2"},
            {"PYTHONWARNDEFAULTENCODING": "1", "PYTHONWARNINGS": "error"}]
        for i in range(140 if tier == "quick" else 1400):
            env = {"PYTHONHASHSEED": str(rng.randint(0, 4000))}
            k = kinds[i % len(kinds)]
            if k in ("shuffled", "twice"):
                env["NPV_SHUFFLE"] = str(rng.randint(1, 10**6))
            if k == "locale":
                env.update(locales[i // len(kinds) % len(locales)])
            case = {"k": k, "env": env, "cwd": rng.choice(["elsewhere", ".", "number_parser_scripts"]),
                    "relative": rng.random() < 0.5, "prefill": rng.randrange(1, 10) if k == "stale" else 0,
                    "mtime": rng.choice([0, 0, 1, -1]),
                    "how": rng.choice(["script", "script", "module", "exec", "import"])}
            if k == "cut-short":
                case["cut"] = rng.randint(1, 90)
                case["file_limit"] = rng.choice([0, 1500, 3000, 6000, 9000])
            if i % nshards == shard:
                yield case

    def judge(self, case, api):
        tree = Tree()
        try:
            shipped_dir = os.path.join(core.REPO, DATA)
            shipped = {n[:-3]: os.path.join(shipped_dir, n) for n in os.listdir(shipped_dir)
                       if n.endswith(".py") and n not in ("__init__.py", "root.py")}
            for i, (name, path) in enumerate(sorted(shipped.items())):
                if case["prefill"] == 1:
                    shutil.copy(path, tree.path(DATA))
                elif case["prefill"] == 2:
                    with open(tree.path(DATA, name + ".py"), "w") as f:
                        f.write("info = {'UNIT_NUMBERS': {'stale': 1}}\n" * (400 if i % 2 else 1))
                elif case["prefill"] == 3:
                    with open(tree.path(DATA, name + ".py"), "wb") as f:
                        f.write(b"\xff\xfe(" * 5000 if i % 2 else b"")
                elif case["prefill"]:
                    with open(path, "rb") as f:
                        old = f.read()
                    if case["prefill"] == 4:
                        old += b"info = {'UNIT_NUMBERS': {'stale': 1}}\n"
                    elif case["prefill"] == 5:
                        old = old.replace(b": 2,", b": 3,")
                    elif case["prefill"] == 6:
                        old = old[:len(old) * (i % 5) // 5]
                    elif case["prefill"] == 7:
                        with open(shipped[sorted(shipped)[i - 1]], "rb") as f:
                            old = f.read()
                    elif case["prefill"] == 8:
                        old = old.replace(b'"UNIT_NUMBERS": {', b'"UNIT_NUMBERS": {"stale": 1,')
                    else:
                        old = old.replace(b": 1", b": 2", 1)  # of the same size
                    with open(tree.path(DATA, name + ".py"), "wb") as f:
                        f.write(old)
                target = tree.path(DATA, name + ".py")
                if case.get("mtime") and os.path.exists(target):
                    when = 4000000000 if case["mtime"] > 0 else 1000
                    os.utime(target, (when, when))
            before = tree.digest()
            if case.get("cut"):
                if case["file_limit"]:
                    tree.run(case["env"], case["cwd"], case["relative"], case["file_limit"])
                else:
                    tree.run(dict(case["env"], NPV_CUT_AT=str(case["cut"])), case["cwd"], case["relative"])
                self.observed["runs_cut_short"] += 1
            for _ in range(2 if case["k"] == "twice" else 1):
                code, err = tree.run(case["env"], case["cwd"], case["relative"], how=case.get("how", "script"))
                api.events += 1
                if code:
                    return "the generator failed (%s): %s" % (case, err[-600:])
            if tree.digest() != before:
                return "the generator changed its sources"
            made = tree.tables()
            if case.get("cut"):  # what the first run left lying about is not judged
                made = {n: f for n, f in made.items() if n in shipped}
            if set(made) != set(shipped):
                return "tables written %s; shipped %s" % (
                    sorted(set(made) - set(shipped)), sorted(set(shipped) - set(made)))
            for name in sorted(shipped):
                try:
                    want, got = read_table(shipped[name]), read_table(made[name])
                except (SyntaxError, ValueError) as e:
                    return "table %s cannot be read: %s" % (name, e)
                self.observed["tables_compared"] += 1
                self.observed["words_compared"] += sum(
                    len(v) for v in want.values() if isinstance(v, dict))
                d = difference(want, got)
                if d:
                    return "regenerating %s does not give the shipped table: %s (%s)" % (name, d, case)
        finally:
            tree.close()
        return None

    def extra(self):
        return self.observed


# ------------------------------------------------------------------ synthetic sources

ALPHABETS = ["abcdefghijklmnopqrstuvwxyz", "áéíóúñüçàèùâêîôûäö", "абвгдежзиклмнопрстуфхцчшщья", "अआइउएकखगघचजटडतदनपबमरलवसह",
             "一二三四五六七八九十百千", "אבגדהוזחטיכלמנסעפצקרשת", "ابتثجحدرزسشصضطعغفقكلمنهوي", "가나다라마바사아자차"]
INSIDE = ["", "", "", "", " ", "-", "'", "’", "·", "\""]


class Language:
    """A made-up language: its source files and the table they mean, built side by side."""

    def __init__(self, rng):
        self.rng = rng
        self.used = set()
        self.alphabet = rng.choice(ALPHABETS)
        self.table = {k: {} for k in ("UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS",
                                      "BIG_POWERS_OF_TEN")}
        self.rules = {}
        self.build()

    def word(self, inside=True):
        rng = self.rng
        while True:
            w = "".join(rng.choice(self.alphabet) for _ in range(rng.randint(1, 8)))
            if inside and rng.random() < 0.2:
                w += rng.choice(INSIDE) + "".join(
                    rng.choice(self.alphabet) for _ in range(rng.randint(1, 5)))
            if rng.random() < 0.02:
                # words that mean something to whoever writes or reads the table
                w = rng.choice(["true", "false", "null", "None", "True", "info", "True false", "not true", "false-x", "x\\ny",
                                "\\u0041", "# x", "ERROR x", "nan", "é\\", "\\", "0x1", "12", "'", '"', "'x'", '"x"'])
                if not inside and not w.isalpha():
                    continue
            if w not in self.used:
                self.used.add(w)
                return w

    def soft(self, s):
        """Soft hyphens anywhere in the source text mean nothing."""
        if self.rng.random() < 0.15:
            for _ in range(self.rng.choice([1, 1, 2, 3])):
                i = self.rng.randrange(len(s) + 1)
                s = s[:i] + "\xad" + s[i:]
        return s

    def rest(self):
        """What a rule for a longer number says about the remainder."""
        rng = self.rng
        inner = rng.choice([">>", ">%spellout-numbering>", ">%%and>", ">%%2d>"])
        return rng.choice(["[ %s]", "[%s]", "[ w %s]", "[-%s]", "[, %s]", " [%s]", " [w %s]", "  [ %s]"]) % inner

    def build(self):
        rng = self.rng
        names = ["%spellout-cardinal", "%spellout-numbering", "%spellout-cardinal-masculine",
                 "%%spellout-cardinal-tens", "%spellout-numbering-year", "spellout-cardinal-alternate2",
                 "%%xx-spellout-cardinal", rng.choice(["%", "%%", ""]) + rng.choice(
                     ["spellout-cardinal-", "spellout-numbering-"]) + rng.choice(
                     ["feminine", "neuter-genitive", "verbose", "large", "century", "percent", "a", "x-2", "reale", "cent", "agents",
                      "centenary", "accent", "numbering", "ordinal-like", "rents"])]
        rng.shuffle(names)
        for name in names[:rng.randint(1, 4)]:
            self.rules[name] = self.ruleset(True)
        for name in ("%spellout-ordinal", "%%cents-m", "%%spellout-cardinal-cents", "%%lenient-parse",
                     "%%2d-year", "%%spellout-numbering-cents", "%%thousands", "%%and",
                     "%%spellout-cardinal-cents-feminine", "%cents-spellout-numbering", "spellout-numbering-cents-2",
                     "%spellout-ordinal-masculine", "%%ord-spellout", "%spellout-numeral", "cardinal", "%numbering"):
            if rng.random() < 0.3:
                self.rules[name] = self.ruleset(False)
        items = list(self.rules.items())
        rng.shuffle(items)
        self.rules = dict(items)
        self.supplement()

    def ruleset(self, counts):
        rng, t = self.rng, self.table
        rules = {}

        def put(key, value, table=None, word=None, number=None):
            if str(key) in rules:
                return False
            rules[str(key)] = self.soft(value) + rng.choice([";", ";", ";", ""])
            if counts and table:
                t[table][word] = number
            return counts

        for n in rng.sample(range(0, 100), rng.randint(3, 30)):
            w = self.word()
            put(n, w, "UNIT_NUMBERS" if n <= 9 else "DIRECT_NUMBERS", w, n)
        for n in (0, 1, 9, 10, 99):
            if rng.random() < 0.4:
                w = self.word()
                put(n, w, "UNIT_NUMBERS" if n <= 9 else "DIRECT_NUMBERS", w, n)
        for n in (100, 1000, 101, 250):
            if rng.random() < 0.2:
                put(n, self.word())
        for d in range(2, 10):
            for power, table in ((1, "TENS"), (2, "HUNDREDS")):
                if rng.random() < 0.5:
                    w = self.word()
                    form = rng.random()
                    if form < 0.75:
                        value = w + self.rest()
                    else:
                        value = w + rng.choice([" >>", ">>", ">%%x>"])
                    put(d * 10**power, value, table, w, d * 10**power)
        for n in (10, 100):  # a leading 1 is not a tens or hundreds word
            if rng.random() < 0.3:
                put(n, self.word() + self.rest())
        for n in rng.sample([21, 32, 45, 67, 98, 121, 999, 111], 2):
            if rng.random() < 0.4:
                put(n, self.word() + ">>")
        for d in (3000, 20000, 9000000):
            if rng.random() < 0.2:
                put(d, self.word() + self.rest())
        for k in list(range(2, 19)) + rng.sample(range(19, 130), 12):
            for d in (1, 2, 5):
                if rng.random() < (0.5 if d == 1 else 0.12):
                    self.multiplier(put, d, k)
        if rng.random() < 0.3:  # ten is not a multiplier
            put(10, "<< " + self.word() + self.rest())
            if rng.random() < 0.5:
                put(rng.choice([10, 20, 30, 1, 7]), "<< $(cardinal,one{%s}other{%s})$" % (self.word(), self.word()) + self.rest())
        for n in rng.sample(range(0, 100), 3):  # a factor and nothing to come
            if rng.random() < 0.2:
                put(n, rng.choice(["<<%s", "<< %s", "<%%%%x<%s"]) % self.word())
        for n in rng.sample(range(0, 10), 2):  # what goes with a remainder is no unit
            if rng.random() < 0.2:
                put(n, self.word() + rng.choice([self.rest(), ">>", " >>"]))
        for n in range(200, 210):  # rules that define no word
            if rng.random() < 0.15:
                put(n, rng.choice(["=%spellout-numbering=", "=#,##0=", "=0=", "=%%x=" + self.word(),
                                   "=%x= " + self.word() + "[ >>]"]))
        for n in rng.sample(range(0, 100), 6) + [300, 3000, 10**6]:
            if rng.random() < 0.2:  # a reference after or inside the words
                ref = rng.choice(["=%spellout-numbering=", "=0=", "=%%x=", "=#,##0="])
                put(n, rng.choice(["%s %s", "%s%s", "%s %s %s", "%s-%s", "%s[ %s]"]).replace("%s", "{}").format(
                    self.word(), ref, self.word()))
        for n in (400, 4000, 10**4, 10**7, 10**11):
            if rng.random() < 0.1:  # nothing comes after the factor
                put(n, rng.choice([">> <<", "[>> ]<<", ">%%x><%%x<", ">> " + self.word() + " <<", ">>" + self.word() + "<<"]))
        for n in range(40, 50):
            if rng.random() < 0.1:
                put(n, rng.choice(["=%%other=", "ERROR", "=0=."]))
        for key in ("-x", "x.x", "Inf", "NaN", "0.x", "x,x", "1000000000000000000/1000", "%%"):
            if rng.random() < 0.3:
                rules[key] = self.word() + rng.choice([";", " >>;", " << >>;"])
        items = list(rules.items())
        if rng.random() < 0.5:
            rng.shuffle(items)
        return dict(items)

    def multiplier(self, put, d, k):
        rng = self.rng
        left = rng.choice(["<<", "<%spellout-cardinal-masculine<", "<%%x<"])
        w = self.word()
        value = None
        form = rng.random()
        if form < 0.15:  # glued to its factor: not a word
            put(d * 10**k, left + w + self.rest())
            return
        if form < 0.4:
            names = ["one", "few", "many", "other", "two"][:rng.randint(1, 5)]
            ws = [w] + [self.word() for _ in names[1:]]
            value = left + " $(cardinal," + "".join(
                "%s{%s}" % (a, b) for a, b in zip(names, ws)) + ")$" + self.rest()
            if put(d * 10**k, value):
                for x in ws:
                    self.table["BIG_POWERS_OF_TEN"][x] = 10**k
            return
        if form < 0.8:
            value = left + rng.choice([" ", " ", " ", "  "]) + w + rng.choice(["", "", "", " "]) + self.rest()
        else:
            value = left + " " + w + " >>"
        put(d * 10**k, value, "BIG_POWERS_OF_TEN", w, 10**k)

    def supplement(self):
        rng, t = self.rng, self.table
        extra = {k: {} for k in t}
        for table, pool in (("UNIT_NUMBERS", range(10)), ("DIRECT_NUMBERS", range(10, 100)),
                            ("TENS", range(20, 100, 10)), ("HUNDREDS", range(100, 1000, 100)),
                            ("BIG_POWERS_OF_TEN", [10**k for k in range(2, 130, 7)])):
            for _ in range(rng.choice([0, 0, 1, 3, 8])):
                extra[table][self.word()] = rng.choice(list(pool))
            for w in list(t[table]):
                if rng.random() < 0.08:  # the supplement corrects the source
                    extra[table][w] = rng.choice(list(pool))
            t[table].update(extra[table])
        extra["SKIP_TOKENS"] = [self.word(False) for _ in range(rng.randint(0, 4))]
        t["SKIP_TOKENS"] = sorted(extra["SKIP_TOKENS"])
        if rng.random() < 0.85:
            extra["USE_LONG_SCALE"] = t["USE_LONG_SCALE"] = rng.random() < 0.5
        items = list(extra.items())
        rng.shuffle(items)
        self.extra = dict(items)


class C21(core.Prop):
    id = "C21"
    hang_guard = False
    min_evaluations = 40
    rule = ("Made-up languages whose CLDR-style rule files and supplements are generated together with the "
            "table they mean: units, two-digit words, tens, hundreds, multipliers in every notation of the "
            "real data (plural forms, soft hyphens, remainders), ordinal and cents rules that must be left "
            "out, references, special keys, corrections by the supplement, languages without spell-out rules; "
            "every table the generator writes is compared with the meaning. Non-trivial: a language with "
            "ten words or more.")
    required = ("language",)

    def __init__(self):
        self.observed = {"words_compared": 0, "generator_runs": 0, "languages_without_rules": 0}

    def cases(self, rng, tier, shard, nshards):
        for _ in range(24 if tier == "quick" else 120):
            yield {"k": "language", "seed": rng.randrange(10**9), "count": 40}

    def judge(self, case, api):
        import random

        rng = random.Random(case["seed"])
        tree = Tree(sources=False)
        try:
            wanted, missing = {}, []
            codes = rng.sample([a + b + c for a in "abcdefghij" for b in "xyz" for c in
                                ("", "q", "-QQ", "_Zz")], case["count"])
            for code in codes:
                lang = Language(rng)
                source = {"rbnf": {"identity": {"language": code},
                                   "rbnf": {"OrdinalRules": {"%digits-ordinal": {"0": "=#,##0=th;"}},
                                            "SpelloutRules": lang.rules}}}
                if rng.random() < 0.06:
                    del source["rbnf"]["rbnf"]["SpelloutRules"]
                    missing.append(code)
                else:
                    wanted[code] = lang.table
                ascii_ = rng.random() < 0.3
                with open(tree.path(RAW, code + ".json"), "w", encoding="utf-8") as f:
                    json.dump(source, f, ensure_ascii=ascii_, indent=rng.choice([None, 2]))
                with open(tree.path(EXTRA, code + ".json"), "w", encoding="utf-8") as f:
                    json.dump(lang.extra, f, ensure_ascii=ascii_)
            for skipped in ("root", "es-419"):
                if rng.random() < 0.5:
                    with open(tree.path(RAW, skipped + ".json"), "w") as f:
                        json.dump({"rbnf": {"rbnf": {"SpelloutRules": {"%spellout-cardinal": {"1": "x;"}}}}}, f)
            before = tree.digest()
            code, err = tree.run({"PYTHONHASHSEED": str(case["seed"] % 4000)})
            self.observed["generator_runs"] += 1
            self.observed["languages_without_rules"] += len(missing)
            if code:
                return "the generator failed: %s" % err[-800:]
            if tree.digest() != before:
                return "the generator changed its sources"
            made = tree.tables()
            if set(made) != set(wanted):
                return "tables not written: %s; written without rules: %s" % (
                    sorted(set(wanted) - set(made)), sorted(set(made) - set(wanted)))
            for name, want in sorted(wanted.items()):
                api.events += 1
                try:
                    got = read_table(made[name])
                except (SyntaxError, ValueError) as e:
                    return "table %s cannot be read: %s" % (name, e)
                self.observed["words_compared"] += sum(
                    len(v) for v in want.values() if isinstance(v, dict))
                d = difference(want, got)
                if d:
                    return "language %s: %s; source %s" % (
                        name, d, open(tree.path(RAW, name + ".json"), encoding="utf-8").read()[:300])
        finally:
            tree.close()
        return None

    def extra(self):
        return self.observed
