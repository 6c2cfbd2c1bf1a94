"""C19: results do not depend on earlier or concurrent calls."""

import hashlib
import os
import pickle
import random
import re
import signal
import struct
import sys
import threading
import time
import unicodedata

from .. import core, fuzz, lexicon as lx, words as wd
from .text import LANGS, mixed, number

WATCHDOG = 240


def outcome(api_fn, text, lang):
    # a string of its own for each call, which may be where a dead one was
    text = text.encode("utf-16", "surrogatepass").decode("utf-16", "surrogatepass")
    try:
        return ("ok", type(v := api_fn(text, lang)).__name__, v)
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:200])


def run_sequence(calls):
    np = core.load()
    return [outcome(getattr(np, op), text, lang) for op, text, lang in calls], {}


def run_marathon(calls, times):
    """The calls over and over: the outcomes of the first round, and the first that differs later."""
    np = core.load()
    fns = {op: getattr(np, op) for op in core.OPS}
    first, n = [], 0
    for r in range(times):
        for i, (op, text, lang) in enumerate(calls):
            out = outcome(fns[op], text, lang)
            n += 1
            if r == 0:
                first.append(out)
            elif out != first[i]:
                return first, (n, i, out)
    return first, (n, None, None)


def run_threads(threads, seed):
    """Runs each list of calls in its own thread, from a pristine interpreter, switching threads
    as often as CPython can and yielding at random lines of the code under test."""
    np = core.load()
    fns = {op: getattr(np, op) for op in core.OPS}
    results = [None] * len(threads)
    barrier = threading.Barrier(len(threads))
    trace = []
    root = os.path.realpath(os.path.join(core.REPO, "number_parser")) + os.sep
    known = {}
    counter = [0]
    local = threading.local()

    def on_line(code, line):
        fn = code.co_filename
        ours = known.get(fn)
        if ours is None:
            ours = known[fn] = os.path.realpath(fn).startswith(root)
        if not ours:
            return sys.monitoring.DISABLE
        r = getattr(local, "rng", None)
        if r is None:
            return None
        if r.random() < local.p:
            counter[0] += 1
            if len(trace) < 4000:
                trace.append((local.me, line))
            time.sleep(0 if r.random() < 0.8 else 2e-5)
        return None

    def work(i):
        local.me = i
        local.rng = random.Random("%s/%d" % (seed, i))
        local.p = local.rng.choice([0.001, 0.01, 0.05])
        barrier.wait()
        results[i] = [outcome(fns[op], text, lang) for op, text, lang in threads[i]]
        local.rng = None

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    mon = sys.monitoring
    mon.use_tool_id(4, "npv-yield")
    mon.register_callback(4, mon.events.LINE, on_line)
    mon.set_events(4, mon.events.LINE)
    pool = [threading.Thread(target=work, args=(i,)) for i in range(len(threads))]
    for t in pool:
        t.start()
    for t in pool:
        t.join()
    mon.set_events(4, 0)
    mon.free_tool_id(4)
    sys.setswitchinterval(old)
    switches = sum(1 for a, b in zip(trace, trace[1:]) if a[0] != b[0])
    return results, {
        "yields_injected": counter[0],
        "thread_switches_seen": switches,
        "interleaving": hashlib.blake2b(repr(trace).encode(), digest_size=8).hexdigest(),
    }


def _where(code, at):
    return (code.co_qualname, code.co_firstlineno, at)


def _watch(fn, callback, fine):
    """Calls fn with `callback(where)` before every line (or, when fine, every bytecode
    instruction) of the code under test that this thread executes."""
    root = os.path.realpath(os.path.join(core.REPO, "number_parser")) + os.sep
    data = root + "data" + os.sep
    known = {}
    me = threading.get_ident()
    mon = sys.monitoring

    def on_event(code, at):
        name = code.co_filename
        ours = known.get(name)
        if ours is None:
            path = os.path.realpath(name)
            ours = known[name] = path.startswith(root) and not path.startswith(data)
        if not ours:
            return mon.DISABLE
        if threading.get_ident() == me:
            callback(_where(code, at))
        return None

    event = mon.events.INSTRUCTION if fine else mon.events.LINE
    mon.use_tool_id(4, "npv-preempt")
    mon.register_callback(4, event, on_event)
    mon.restart_events()
    mon.set_events(4, event)
    try:
        return fn()
    finally:
        mon.set_events(4, 0)
        mon.register_callback(4, event, None)
        mon.free_tool_id(4)


def run_profile(call, fine):
    """How often each line (instruction) of the code under test runs in a first call."""
    np = core.load()
    counts = {}

    def count(where):
        counts[where] = counts.get(where, 0) + 1

    _watch(lambda: outcome(getattr(np, call[0]), call[1], call[2]), count, fine)
    return counts


def run_preempted(a, b, points, fine, warm):
    """Runs call `a`; at each point (in turn) suspends it, runs call `b` to the end in another
    thread and goes on."""
    np = core.load()

    def do(call):
        return outcome(getattr(np, call[0]), call[1], call[2])

    if warm:
        do(b)
        do(a)
    results = []
    for point, nth in points:
        state = {"left": nth, "fired": False, "b": None, "late": None}

        def other():
            state["b"] = do(b)

        def at(where):
            if where == point and not state["fired"]:
                state["left"] -= 1
                if state["left"] <= 0:
                    state["fired"] = True
                    t = threading.Thread(target=other)
                    t.start()
                    t.join(0.15)
                    if t.is_alive():  # waits for something `a` holds
                        state["late"] = t

        got = _watch(lambda: do(a), at, fine)
        if state["late"] is not None:
            state["late"].join()
        results.append((got, state["b"], state["fired"], state["late"] is not None))
    return results


def run_interrupted(a, followers, points, warm):
    """Runs call `a` with an exception arriving at a point (in turn), then the followers."""
    np = core.load()
    signal.signal(signal.SIGALRM, _stuck)

    def do(call):
        signal.alarm(STUCK)
        try:
            return outcome(getattr(np, call[0]), call[1], call[2])
        except _Stuck:
            return ("hang", "still running after %d s" % STUCK, None)
        finally:
            signal.alarm(0)

    if warm:
        for call in followers:
            do(call)
        do(a)
    results = []
    for point, nth, kind in points:
        state = {"left": nth, "fired": False}

        def at(where):
            if where == point and not state["fired"]:
                state["left"] -= 1
                if state["left"] <= 0:
                    state["fired"] = True
                    raise INTERRUPTS[kind]("injected")

        signal.alarm(STUCK)
        try:
            got = ("ok", _watch(lambda: getattr(np, a[0])(a[1], a[2]), at, False))
        except _Stuck:
            got = ("hang", None)
        except BaseException as e:
            got = ("exc", type(e).__name__)
        finally:
            signal.alarm(0)
        results.append((state["fired"], got, [do(call) for call in followers]))
        if any(r[0] == "hang" for r in results[-1][2]):
            break
    return results


class _Stuck(BaseException):
    pass


class Cancelled(BaseException):
    """What a cancelled task or a timeout guard raises in the thread that runs the call."""


STUCK = 25
INTERRUPTS = {"KeyboardInterrupt": KeyboardInterrupt, "Cancelled": Cancelled, "MemoryError": MemoryError}


def _stuck(signum, frame):
    raise _Stuck()


PROGRAMS = {"sequence": run_sequence, "threads": run_threads, "profile": run_profile,
            "marathon": run_marathon, "preempted": run_preempted, "interrupted": run_interrupted}


class Zygote:
    """A process that has imported the library and called nothing; each program runs in a fork
    of it, so it starts from the pristine state."""

    def __init__(self):
        core.load()
        self.to_r, self.to_w = os.pipe()
        self.from_r, self.from_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.to_w)
                os.close(self.from_r)
                self.serve()
            finally:
                os._exit(0)
        os.close(self.to_r)
        os.close(self.from_w)

    def serve(self):
        signal.setitimer(signal.ITIMER_REAL, 0)
        while True:
            msg = recv(self.to_r)
            if msg is None:
                return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(WATCHDOG)
                    kind, args = msg
                    send(w, PROGRAMS[kind](*args))
                finally:
                    os._exit(0)
            os.close(w)
            answer = recv(r)
            os.close(r)
            os.waitpid(pid, 0)
            send(self.from_w, answer)

    def ask(self, kind, *args):
        send(self.to_w, (kind, args))
        answer = recv(self.from_r)
        if answer is None:
            raise core.Inconclusive("a %s program left no answer within %d s" % (kind, WATCHDOG))
        return answer

    def close(self):
        os.close(self.to_w)
        os.close(self.from_r)
        os.waitpid(self.pid, 0)


def send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack(">Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def recv(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            part = os.read(fd, min(n - len(out), 1 << 20))
            if not part:
                return None
            out += part
        return out

    head = exactly(8)
    if head is None:
        return None
    body = exactly(struct.unpack(">Q", head)[0])
    return None if body is None else pickle.loads(body)


#: codes the package has no language for
NOT_LANGUAGES = ["xx", "EN", "", " ", "en ", "en-US", "en_GB", "en_US.UTF-8", "es-419", "es_ES", "ES", "hi_IN", "ru-RU", "RU", "uk_UA", "ua",
                 "eng", "spa", "rus", "ukr", "hin", "english", "Spanish", "auto", "None", "C", "root", "POSIX", "e", "\u0435n", "en\n"] + (
    "fr de it pt pt_PT pt-BR nl sv da nb fi pl cs sk sl hr sr bg be mk ro hu el tr ar he fa ur bn ta te mr gu pa zh zh_Hant "
    "ja ko vi th id ms lt lv et ka hy az kk uz mn sw af sq eu ca gl ga cy is mt eo la").split()


class C19(core.Prop):
    id = "C19"
    hang_guard = False
    rule = ("Histories of calls (all entry points, five languages and detection, unsupported languages "
            "and other failing calls, the same text in many languages and spellings) run from a pristine "
            "interpreter: sequentially (10-6000 calls) and in 2-8 threads from the first call on, with "
            "yields injected at random lines; and calls suspended at a chosen line or bytecode instruction, cold "
            "or warm, while another call runs to its end in another thread; each outcome is compared with the same call made alone in "
            "its own fresh process. Non-trivial: distinct histories of two calls or more.")
    required = ("sequence", "long-sequence", "many-distinct", "marathon", "threads", "family", "preempted-warm",
                "preempted-cold")
    min_evaluations = 20

    def __init__(self):
        self.zygote = None
        self.reference = {}
        self.observed = {"calls_compared": 0, "reference_processes": 0, "yields_injected": 0,
                         "thread_switches_seen": 0, "max_history_length": 0,
                         "distinct_interleavings": set(), "preemptions_made": 0,
                         "preemptions_that_had_to_wait": 0, "distinct_preemption_points": set(),
                         "failing_calls_in_histories": 0}

    def pool(self, rng, size):
        """Calls that are easy to confuse: same text, other language / entry point / spelling."""
        calls = []
        shared = ["once", "dos", "un", "mil", "cien", "два", "три", "сто", "один", "сорок", "one", "two",
                  "first", "y", "and", "5", "uno y dos", "twenty first", "сто два", "тысяча", "пять",
                  "five five", "el año tiene doce meses", "cafe\u0301 five naïve", "Five Cows", "one over two", "two by three", "zero", "cero", "ноль", "सौ", "एक", "दो"]
        while len(calls) < size:
            k = rng.random()
            if k < 0.35:
                text = rng.choice(shared)
            elif k < 0.55:
                text = number(rng, rng.choice(LANGS))[0]
            elif k < 0.75:
                text = mixed(rng, rng.choice(LANGS), rng.randint(1, 8)).source()
            else:
                text = fuzz.text(rng, rng.choice(LANGS + [None]), 60)
            if rng.random() < 0.06:  # one text in every spelling
                op, lang = rng.choice(core.OPS + ("parse",) * 4), rng.choice(LANGS + [None])
                if rng.random() < 0.5:
                    text = mixed(rng, lang or "es", rng.randint(3, 8)).source()
                forms = [text] + [self.relative(rng, text, n) for n in range(17)]
                forms += [unicodedata.normalize(f, text) for f in ("NFC", "NFD", "NFKC")]
                rng.shuffle(forms)
                calls.extend((op, t, lang) for t in forms)
                continue
            for _ in range(rng.randint(1, 4)):
                lang = rng.choice(LANGS + [None, None, rng.choice(NOT_LANGUAGES)])
                v = rng.random()
                t = text
                if v < 0.35:
                    t = self.relative(rng, text)
                calls.append((rng.choice(core.OPS), t, lang))
        return calls[:size]

    HEADS = ["x1997 ", "42 ", "- ", "! ", "§", "... ", "zz ", "1997, ", "(", "a b c d e f "]

    def relative(self, rng, text, k=None):
        """A different text that a careless cache key would take for the same."""
        if k is None:
            k = rng.randrange(17)
        words = text.split(" ")
        if k == 12:
            return unicodedata.normalize(rng.choice(["NFC", "NFD", "NFKC", "NFKD"]), text)
        if k == 13:
            return text.replace("\xad", "") if "\xad" in text else text[:1] + "\xad" + text[1:]
        if k == 14:
            return rng.choice([text.lower(), text.casefold(), text.title(), text.swapcase()])
        if k == 15:
            return re.sub(r"\W+", rng.choice([" ", ""]), text)
        if k == 16:
            return text.translate({39: 0x2019, 0x2019: 39, 0x2bc: 39, 32: 0xa0})
        if k == 0:
            return text.upper()
        if k == 1:
            return text + rng.choice([" ", "\n", "!", " - "])
        if k == 2:
            return " " + text
        if k == 3:
            head = rng.choice(self.HEADS)
            return head * rng.choice([1, 8, 20, 60, 300]) + text
        if k == 4:
            tail = " " + rng.choice(self.HEADS)
            return text + tail * rng.choice([1, 8, 20, 60, 300])
        if k == 5:
            return " ".join(words[::-1])
        if k == 6:
            return " ".join(sorted(words))
        if k == 7:
            return " ".join(words + words[:1])
        if k == 8:
            return text[: rng.choice([8, 16, 32, 64])]
        if k == 9:
            return text.replace(" ", rng.choice(["  ", "\n", "-", ", "]))
        if k == 10:
            return lx.plain(text)
        # the same length
        return "".join(rng.choice("abcxyz") if c.isalpha() and rng.random() < 0.2 else c for c in text)

    def family(self, rng):
        """Texts that differ only at one end, in different languages."""
        head = rng.choice(self.HEADS) * rng.choice([1, 8, 20, 60, 300])
        at_end = rng.random() < 0.6
        out = []
        for _ in range(rng.randint(3, 8)):
            t = number(rng, rng.choice(LANGS), plain=True)[0]
            out.append((rng.choice(core.OPS + ("parse", "parse")), head + t if at_end else t + " " + head,
                        rng.choice([None, None, None, rng.choice(LANGS)])))
        return out

    def busy(self, rng):
        """A call that keeps much state on the way: conjunctions, boundaries, sentences."""
        if rng.random() < 0.2:
            return self.typical(rng, rng.choice(core.OPS))
        lang = rng.choice(["en", "en", "es", "hi", "ru", "uk"])
        k = rng.random()
        if k < 0.6:
            words = []
            for _ in range(rng.randint(2, 9)):
                words.append(rng.choice(lx.L[lang].words))
                if wd.SKIPS[lang] and rng.random() < 0.5:
                    words.append(rng.choice(wd.SKIPS[lang]))
                if rng.random() < 0.1:
                    words.append(rng.choice([",", ".", wd.filler(rng, lang)]))
            text = " ".join(words)
        elif k < 0.8:
            text = mixed(rng, lang, rng.randint(2, 8)).source()
        else:
            text = number(rng, lang)[0]
        if rng.random() < 0.1:
            text += " over " + number(rng, lang)[0]
        return (rng.choice(("parse", "parse") + tuple(core.OPS)), text,
                rng.choice([lang, lang, None, rng.choice(LANGS)]))

    def typical(self, rng, op):
        """A call of the entry point that goes all the way to a result."""
        lang = rng.choice(LANGS)
        t = number(rng, lang, plain=True)[0]
        if op == "parse_fraction":
            t += rng.choice([" over ", " by ", "/", " divided by ", " / "]) + number(rng, lang, plain=True)[0]
        elif op == "parse_ordinal" and rng.random() < 0.6:
            lang, t = "en", " ".join([rng.choice(["one hundred", "two thousand", "", "six million"]), rng.choice(fuzz.ORDINALS)]).strip()
        elif op == "parse":
            t = mixed(rng, lang, rng.randint(2, 5)).source()
        return (op, t, rng.choice([lang, lang, None]))

    def preempted(self, rng, warm):
        a = self.busy(rng)
        b = a if rng.random() < 0.15 else self.busy(rng)
        if rng.random() < 0.25:  # the same way through the code for other values
            op = rng.choice(core.OPS)
            a, b = self.typical(rng, op), self.typical(rng, op)
        if rng.random() < 0.3:
            b = (b[0], b[1], a[2])
        return {"k": "preempted-warm" if warm else "preempted-cold", "a": list(a), "b": list(b),
                "fine": rng.random() < 0.35, "warm": warm, "seed": rng.randrange(10**9),
                "points": 30 if warm else 4}

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 12
        for r in range(16 * scale):
            yield self.preempted(rng, True)
            yield self.preempted(rng, False)
            if r % 3 == 0:
                family = self.family(rng)
                yield {"k": "family", "calls": [c for a in family for b in family for c in (a, b)]}
                calls = [self.busy(rng) for _ in range(8)]
                yield {"k": "threads", "seed": rng.randrange(10**9), "threads": [
                    [rng.choice(calls) for _ in range(12)] for _ in range(rng.choice([2, 3]))]}
        for r in range(6 * scale):
            pool = self.pool(rng, rng.randint(8, 40))
            n = rng.randint(10, 150)
            yield {"k": "sequence", "calls": [rng.choice(pool) for _ in range(n)]}
            # every ordered pair of a few calls, back to back
            few = pool[:12]
            yield {"k": "sequence", "calls": [c for a in few for b in few for c in (a, b)]}
            count = rng.choice([2, 3, 4, 8])
            same = rng.random() < 0.4
            first = [rng.choice(pool) for _ in range(rng.randint(3, 14))]
            yield {"k": "threads", "seed": rng.randrange(10**9), "threads": [
                list(first) if same else [rng.choice(pool) for _ in range(rng.randint(3, 25))]
                for _ in range(count)]}
            few = self.pool(rng, 3)
            yield {"k": "threads", "seed": rng.randrange(10**9), "threads": [
                [rng.choice(few) for _ in range(30)] for _ in range(2)]}
        for r in range(1 * scale):
            # a call that fails, and one that has to find out the language
            short = [("parse", "uno y dos", None), ("parse", "сто два коровы", None), ("parse_number", "एक", None), ("parse_number", "mil dos", None),
                     ("parse", "дев'ять три", None), ("parse", "cow", None), ("parse_ordinal", "twenty first", None)]
            bad = rng.sample(NOT_LANGUAGES, len(NOT_LANGUAGES))
            yield {"k": "sequence", "calls": [c for b in bad for c in (
                (rng.choice(core.OPS), rng.choice(["five", "uno", "", "12", "сто"]), b), rng.choice(short))]}
            pool = self.pool(rng, 60)
            yield {"k": "long-sequence", "calls": [rng.choice(pool) for _ in range(6000)]}
            short = [("parse_number", "five", "en"), ("parse", "two million three thousand", "en"),
                     ("parse_ordinal", "twenty first", "en"), ("parse_fraction", "one over two", "en"),
                     ("parse", "cow", "en"), ("parse_number", "x", "xx"), ("parse_number", "12", "en")]
            short += [c for c in (self.busy(rng) for _ in range(90)) if c[2] == "en" and len(c[1]) < 60][:12]
            short += [("parse", t, "en") for t in ("one thousand two hundred million", "two hundred five hundred", "one and two, three. four")]
            yield {"k": "marathon", "calls": short + [
                rng.choice([("parse", "dos mil", "es"), ("parse", "сто два", "ru"), ("parse", "сто два", "uk"),
                            ("parse", "सौ", "hi"), ("parse", "uno y dos", None)])],
                "calls_to_make": 70000 if tier == "quick" else rng.choice([70000, 300000, 600000])}
            pool = self.pool(rng, 1200)
            yield {"k": "many-distinct", "calls": pool + pool[:300] + pool[::-1][:300]}

    def alone(self, call):
        call = tuple(call)
        if call not in self.reference:
            self.observed["reference_processes"] += 1
            self.reference[call] = self.zygote.ask("sequence", [call])[0][0]
        return self.reference[call]

    def judge(self, case, api):
        if self.zygote is None:
            self.zygote = Zygote()
        if len(self.reference) > 20000:
            self.reference.clear()
        if "points" in case:
            return self.judge_preempted(case, api)
        if case["k"] == "marathon":
            return self.judge_marathon(case, api)
        if "threads" in case:
            threads = [[tuple(c) for c in t] for t in case["threads"]]
            results, seen = self.zygote.ask("threads", threads, case["seed"])
            self.observed["yields_injected"] += seen["yields_injected"]
            self.observed["thread_switches_seen"] += seen["thread_switches_seen"]
            self.observed["distinct_interleavings"].add(seen["interleaving"])
            where = "in %d threads" % len(threads)
        else:
            threads = [[tuple(c) for c in case["calls"]]]
            results, seen = self.zygote.ask("sequence", threads[0])
            results = [results]
            where = "in sequence"
        for t, (calls, outs) in enumerate(zip(threads, results)):
            if outs is None or len(outs) != len(calls):
                return "a thread died %s: %r" % (where, calls[:5])
            self.observed["max_history_length"] = max(self.observed["max_history_length"], len(calls))
            for i, (call, out) in enumerate(zip(calls, outs)):
                if case["k"] == "many-distinct" and int(hashlib.md5(
                        repr(call).encode("utf-8", "backslashreplace")).hexdigest(), 16) % 4:
                    continue
                self.observed["calls_compared"] += 1
                if out[0] == "exc":
                    self.observed["failing_calls_in_histories"] += 1
                api.events += 1
                api.by_op[call[0]] = api.by_op.get(call[0], 0) + 1
                api.by_outcome[out[1]] = api.by_outcome.get(out[1], 0) + 1
                want = self.alone(call)
                if out != want:
                    return ("call %d %s: %s(%r, %r) gives %r, but %r when it is the only call; "
                            "calls before it: %r" % (i, where, call[0], call[1][:200], call[2], out, want,
                                                     calls[max(0, i - 3):i]))
        return None

    def judge_marathon(self, case, api):
        calls = [tuple(c) for c in case["calls"]]
        first, (n, at, other) = self.zygote.ask("marathon", calls, case["calls_to_make"] // len(calls))
        api.events += n
        self.observed["calls_compared"] += n
        self.observed["max_history_length"] = max(self.observed["max_history_length"], n)
        for call, out in zip(calls, first):
            if out != self.alone(call):
                return "%s(%r, %r) gives %r in a sequence, but %r when it is the only call" % (
                    *call, out, self.alone(call))
        if at is not None:
            return "%s(%r, %r) gives %r, but %r as call %d of a process that repeats %d calls" % (
                *calls[at], first[at], other, n, len(calls))
        return None

    def judge_preempted(self, case, api):
        a, b = tuple(case["a"]), tuple(case["b"])
        fine, warm = case["fine"], case["warm"]
        rng = random.Random(case["seed"])
        counts = self.zygote.ask("profile", a, fine)
        places = sorted(counts)
        points = []
        if places:
            for _ in range(case["points"]):
                place = rng.choice(places)
                n = counts[place]
                points.append((place, rng.choice([1, n, rng.randint(1, n)])))
        want_a, want_b = self.alone(a), self.alone(b)
        runs = [points] if warm else [[p] for p in points]
        for group in runs:
            results = self.zygote.ask("preempted", a, b, group, fine, warm)
            for (place, nth), (got_a, got_b, fired, late) in zip(group, results):
                api.events += 2
                self.observed["calls_compared"] += 1 + fired
                if fired:
                    self.observed["preemptions_made"] += 1
                    self.observed["distinct_preemption_points"].add((place, nth))
                self.observed["preemptions_that_had_to_wait"] += late
                at = "suspended in %s (line %d, at %d, time %d)" % (place[0], place[1], place[2], nth)
                if got_a != want_a:
                    return "%s(%r, %r) %s for %s(%r, %r) gives %r, but %r when it is the only call" % (
                        *a, at, *b, got_a, want_a)
                if fired and got_b != want_b:
                    return "%s(%r, %r), run while %s(%r, %r) is %s, gives %r, but %r alone" % (
                        *b, *a, at, got_b, want_b)
        return None

    def extra(self):
        if self.zygote is not None:
            self.zygote.close()
            self.zygote = None
        return self.observed
