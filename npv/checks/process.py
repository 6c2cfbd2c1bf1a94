"""C26-C29: what the calls do to, and take from, the process they run in."""

import codecs
import contextvars
import gc
import hashlib
import json
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings

from .. import core, fuzz, lexicon as lx, words as wd
from .history import C19, INTERRUPTS, Zygote
from .text import LANGS, mixed, number

_HELP = C19()


def calls_of(rng, n):
    """n calls of every kind, failing ones included."""
    out = []
    while len(out) < n:
        k = rng.random()
        if k < 0.4:
            out.extend(_HELP.pool(rng, 4))
        elif k < 0.7:
            out.append(_HELP.busy(rng))
        elif k < 0.9:
            lang = rng.choice(LANGS + [None])
            out.append((rng.choice(core.OPS), fuzz.text(rng, lang, 120), lang))
        elif k < 0.95:
            out.append((rng.choice(core.OPS), "7" * rng.choice([5000, 12000]), rng.choice(LANGS)))
        elif k < 0.985:
            lang = rng.choice(LANGS)
            t = fuzz.soup(rng, rng.randint(60, 300), lang)
            out.append((rng.choice(core.OPS), t, rng.choice([lang, None])))
        else:
            lang = rng.choice(LANGS)
            few = [fuzz.token(rng, lang) for _ in range(rng.randint(1, 3))]
            t = " ".join(rng.choice(few) for _ in range(rng.choice([1200, 2500, 6000])))
            if fuzz.max_digit_run(t) < 4000:
                out.append((rng.choice(core.OPS), t + rng.choice(["", ".", ", five.", " by six"]),
                            rng.choice([lang, lang, None])))
    return [list(c) for c in out[:n]]


# ------------------------------------------------------------------------------------- C26

#: audited operations that reach outside the call
FORBIDDEN = re.compile(
    r"os\.(chdir|chflags|chmod|chown|exec|fork|forkpty|kill|killpg|link|lockf|mkdir|posix_spawn|putenv|"
    r"remove|removexattr|rename|rmdir|setxattr|spawn|startfile|symlink|system|truncate|unsetenv|utime)$"
    r"|subprocess\.|socket\.|shutil\.|tempfile\.|ctypes\.|fcntl\.|ftplib\.|http\.|smtplib\.|sqlite3\.|"
    r"urllib\.|mmap\.|syslog\.|resource\.(setrlimit|prlimit)|signal\.|webbrowser\.|pty\.|"
    r"sys\.(addaudithook|setprofile|settrace|set_asyncgen)|builtins\.(input|breakpoint)"
)
_audit = {"on": False, "pid": 0, "thread": 0, "seen": [], "count": 0, "roots": ()}


def _audit_hook(event, args):
    if not _audit["on"] or os.getpid() != _audit["pid"] or threading.get_ident() != _audit["thread"]:
        return
    _audit["count"] += 1
    if event == "open":
        path, mode, flags = (tuple(args) + (None,) * 3)[:3]
        writing = bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT
                                                           | os.O_TRUNC | os.O_APPEND))
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        inside = isinstance(path, str) and os.path.realpath(path).startswith(_audit["roots"])
        if writing or not inside:
            _audit["seen"].append("opens %r (mode %r)" % (path, mode))
    elif FORBIDDEN.match(event):
        _audit["seen"].append("%s%.200r" % (event, args))


def _module_names(name):
    m = sys.modules.get(name)
    if m is None:
        return None
    out = {}
    for k, v in list(vars(m).items()):
        if name == "builtins" or k[:1] != "_" or callable(v):
            out[k] = id(v)
        elif k[:2] != "__" and (v is None or isinstance(v, (bool, int, float, str))):
            out[k] = repr(v)
    return out


def unusual():
    """Gives settings values that no code would choose, so that resetting one shows."""
    import decimal
    import logging

    os.umask(0o027)
    sys.setrecursionlimit(sys.getrecursionlimit() + 137)
    sys.setswitchinterval(0.0071)
    if sys.get_int_max_str_digits():
        sys.set_int_max_str_digits(sys.get_int_max_str_digits() + 11)
    decimal.getcontext().prec = 31
    gc.set_threshold(701, 11, 13)
    logging.root.setLevel(37)
    threading.stack_size(1 << 20)
    random.seed(20240229)
    sys.argv = ["npv-monitor", "un"]
    os.environ["NPV_UNUSUAL"] = "1"
    import importlib
    import socket

    socket.setdefaulttimeout(97.0)
    for m in WATCHED:
        importlib.import_module(m)


STDLIB = sys.stdlib_module_names


def _children():
    try:
        with open("/proc/self/task/%d/children" % threading.get_native_id()) as f:
            return f.read().split()
    except OSError:
        return []


def _limits():
    import resource

    return {n: resource.getrlimit(getattr(resource, n)) for n in dir(resource) if n.startswith("RLIMIT_")}


def _codecs_handlers():
    out = []
    for n in ("strict", "ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace",
              "surrogateescape", "surrogatepass"):
        out.append(id(codecs.lookup_error(n)))
    return out


def _callees(act, *args):
    """What the interpreter itself calls back while `act` runs."""
    seen = []
    me = sys._getframe()

    def watch(frame, event, arg):
        if event == "call" and frame.f_back is inner:
            seen.append("%s (%s:%d)" % (frame.f_code.co_qualname, frame.f_code.co_filename, frame.f_code.co_firstlineno))

    def run():
        nonlocal inner
        inner = sys._getframe()
        sys.setprofile(watch)
        try:
            return act(*args)
        except LookupError:
            return None
        finally:
            sys.setprofile(old)

    inner, old = me, sys.getprofile()
    return run(), seen


def codec_searchers():
    """The functions asked for a codec that nobody has."""
    return _callees(codecs.lookup, "npv-nobodys-codec")[1]


def fork_hooks():
    """The functions called around a fork, in the parent and the child."""
    r, w = os.pipe()
    pid, seen = _callees(os.fork)
    if pid == 0:
        try:
            os.write(w, json.dumps(seen).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        child = f.read()
    os.waitpid(pid, 0)
    return seen, json.loads(child)


#: modules whose public names must stay what they are
WATCHED = """builtins re unicodedata string math os importlib locale json codecs sys time random functools collections
    operator itertools copy types warnings logging decimal fractions numbers enum typing threading subprocess
    socket tempfile contextlib pathlib shutil io abc datetime calendar signal inspect pickle copyreg struct weakref heapq
    bisect textwrap pprint csv html html.parser urllib.parse argparse gc atexit contextvars platform glob fnmatch queue hashlib
    keyword ast posixpath stat site reprlib difflib statistics base64 binascii array concurrent.futures unittest
    re._compiler re._parser encodings collections.abc importlib.util importlib.machinery traceback""".split()


def snapshot():
    """The state of the process that other code may rely on."""
    import atexit
    import copyreg
    import decimal
    import faulthandler
    import locale
    import logging
    import socket
    import time

    ctx = decimal.getcontext()
    with open("/proc/self/status") as f:
        umask = next((x.split()[1] for x in f if x.startswith("Umask")), None)
    here = {}
    for s in signal.valid_signals():
        try:
            here[int(s)] = repr(signal.getsignal(s))
        except (ValueError, OSError):
            pass
    return {
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "integer digit limit": sys.get_int_max_str_digits(),
        "trace function": sys.gettrace(),
        "profile function": sys.getprofile(),
        "standard streams": [(id(f), getattr(f, "encoding", None), getattr(f, "errors", None),
                              getattr(f, "line_buffering", None), getattr(f, "write_through", None),
                              getattr(f, "closed", None)) for f in (sys.stdin, sys.stdout, sys.stderr)],
        "sys.path": list(sys.path),
        "import hooks": ([repr(x) for x in sys.meta_path], [repr(x) for x in sys.path_hooks]),
        "sys hooks": (id(sys.displayhook), id(sys.excepthook), id(sys.unraisablehook)),
        "sys.argv": list(sys.argv),
        "bytecode flag": sys.dont_write_bytecode,
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": umask,
        "locale": locale.setlocale(locale.LC_ALL),
        "random state": hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
        "decimal context": repr(ctx),
        "threads": sorted(t.name for t in threading.enumerate()),
        "signal handlers": here,
        "timer": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "warning filters": list(map(repr, warnings.filters)),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled,
                    logging.root.manager.disable, logging.raiseExceptions),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "float repr": sys.float_repr_style,
        "exit handlers": atexit._ncallbacks(),
        "time zone": (time.tzname, time.timezone),
        "process priority": os.getpriority(os.PRIO_PROCESS, 0),
        "processors allowed": sorted(os.sched_getaffinity(0)),
        "resource limits": _limits(),
        "thread settings": (threading.stack_size(), id(threading.excepthook),
                            repr(threading.gettrace()), repr(threading.getprofile())),
        "socket time-out": socket.getdefaulttimeout(),
        "fault handler": faulthandler.is_enabled(),
        "pickling registry": len(copyreg.dispatch_table),
        "error handlers of codecs": _codecs_handlers(),
        "blocked signals": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "frozen objects": gc.get_freeze_count(),
        "allocation trace": tracemalloc.is_tracing(),
        "tools on sys.monitoring": [sys.monitoring.get_tool(i) for i in range(6)],
        "coroutine origin depth": sys.get_coroutine_origin_tracking_depth(),
        "names in sys": sorted(n for n in vars(sys) if n not in ("last_exc", "last_type", "last_value",
                                                                             "last_traceback")),
        "children": _children(),
        "open files": sorted(os.listdir("/proc/self/fd")).__len__(),
        "loaded modules": {n: id(m) for n, m in list(sys.modules.items())},
        "modules": {m: _module_names(m) for m in WATCHED},
        "search functions of codecs": codec_searchers(),
        "hooks of asynchronous generators": list(map(repr, sys.get_asyncgen_hooks())),
        "context variables": sorted((k.name, id(v)) for k, v in contextvars.copy_context().items()),
    }


def differences(a, b):
    out = []
    for k in a:
        if a[k] == b[k]:
            continue
        if k == "loaded modules":
            gone = sorted(n for n in a[k] if b[k].get(n) != a[k][n])
            if gone:
                out.append("replaces or removes the module %s" % gone[0])
            for n in sorted(set(b[k]) - set(a[k])):
                m = sys.modules.get(n)
                if getattr(getattr(m, "__spec__", None), "name", n) != n and n.split(".")[0] not in STDLIB:
                    out.append("adds %s under the name %r to the loaded modules" % (m.__spec__.name, n))
        elif k == "modules":
            for m in a[k]:
                x, y = a[k][m], b[k][m]
                if x is None or y is None or x == y:
                    continue
                gone = sorted(n for n in x if y.get(n) != x[n])
                if m == "importlib":  # importing a submodule of it adds a name
                    pass
                if gone:
                    out.append("replaces %s.%s" % (m, gone[0]))
                elif m == "builtins":
                    out.append("adds builtins.%s" % sorted(set(y) - set(x))[0])
        else:
            out.append("changes the %s from %.300r to %.300r" % (k, a[k], b[k]))
    return out


def observed_run(calls):
    """Makes the calls under the audit hook, with the output descriptors redirected.  Runs in a
    process of its own."""
    np = core.load()
    fns = {op: getattr(np, op) for op in core.OPS}
    sys.stdout.flush()
    sys.stderr.flush()
    keep = os.dup(1), os.dup(2)
    sink = os.memfd_create("npv-output")
    os.dup2(sink, 1)
    os.dup2(sink, 2)
    problems = []
    failing = 0
    warnings.simplefilter("always")
    told = []
    old_show = warnings.showwarning
    warnings.showwarning = lambda m, c, f, l, *a, **k: told.append("%s: %s (%s)" % (c.__name__, m, f))
    sys.addaudithook(_audit_hook)
    _audit.update(pid=os.getpid(), thread=threading.get_ident(), roots=_roots(), seen=[], count=0)
    unusual()
    snapshot()
    forks = fork_hooks()
    before = snapshot()
    handlers = dict(before["signal handlers"])
    try:
        for op, text, lang in calls:
            _audit["on"] = True
            try:
                fns[op](text, lang)
            except Exception:
                failing += 1
            finally:
                _audit["on"] = False
            after = snapshot()
            changed = differences(before, after)
            for s in (sys.stdout, sys.stderr):
                s.flush()
            written = os.lseek(sink, 0, os.SEEK_END)
            found = _audit["seen"] + changed
            if written:
                found.append("writes to the standard output or error: %r" % os.pread(sink, 200, 0))
            if told:
                found.append("warns: " + told[0])
            if found:
                problems.append((op, text, lang, found[:3]))
                break
        else:
            after = fork_hooks()
            if after != forks:
                problems.append((op, text, lang, ["or a call before it registers a function to be called around forks: %.500r" % (
                    [f for x, y in zip(forks, after) for f in y if f not in x],)]))
    finally:
        warnings.showwarning = old_show
        os.dup2(keep[0], 1)
        os.dup2(keep[1], 2)
    return {"problems": problems, "failing": failing, "audited": _audit["count"],
            "watched": len(before) + len(handlers)}


def watch_import():
    sys.addaudithook(_audit_hook)
    _audit.update(pid=os.getpid(), thread=threading.get_ident(), seen=[], count=0, on=True, roots=_roots())


def watched_import():
    _audit["on"] = False
    return list(_audit["seen"])


def _roots():
    """Where the modules are."""
    roots = {os.path.realpath(core.REPO) + os.sep}
    for p in (sys.prefix, sys.base_prefix, sys.exec_prefix, os.path.dirname(os.__file__)):
        p = os.path.realpath(p)
        if p not in ("/", "/usr"):
            roots.add(p + os.sep)
    if sys.pycache_prefix:
        roots.add(os.path.realpath(sys.pycache_prefix) + os.sep)
    return tuple(roots | {"/usr/lib/", "/usr/local/lib/", "/usr/share/zoneinfo", "/usr/lib64/"})


IMPORT_PROBE = r"""
import json, os, sys, locale, random, decimal, logging, warnings, signal, threading, gc
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[2])
sys.path.insert(0, sys.argv[1])
from npv.checks import process
sys.path.remove(sys.argv[2])
sys.path.remove(sys.argv[1])
sys.path.insert(0, sys.argv[1])
for m in [m for m in sys.modules if m.split(".")[0] == "number_parser"]:
    del sys.modules[m]
process.unusual()
process.snapshot()
forks = process.fork_hooks()
before = process.snapshot()
process.watch_import()
import number_parser
keep = process.watched_import()
after = process.snapshot()
keep += process.differences(before, after)
if process.fork_hooks() != forks:
    keep.append("registers a function to be called around forks: %r" % (process.fork_hooks(),))
print("\x00" + json.dumps([number_parser.__file__, keep]))
"""


def in_child(fn, *args):
    """fn's result from a fork of this process."""
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            data = pickle.dumps(fn(*args))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise core.Inconclusive("a child process left no answer")
    return pickle.loads(data)


class C26(core.Prop):
    id = "C26"
    hang_guard = False
    rule = ("Mixed calls (all entry points, languages and detection, failing calls, long texts, from the "
            "first call of a process on) under an audit hook, with the output descriptors redirected and the "
            "state of the process compared before and after every call; and the import of the package in a "
            "fresh process. Non-trivial: distinct sequences of calls.")
    required = ("first-calls", "import")
    min_evaluations = 20

    def __init__(self):
        self.observed = {"calls_observed": 0, "failing_calls": 0, "audit_events": 0,
                         "state_items_compared": 0, "imports_observed": 0}

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 20
        yield {"k": "import", "n": shard}
        for _ in range(12 * scale):
            yield {"k": "first-calls", "calls": calls_of(rng, 80)}

    def judge(self, case, api):
        if case["k"] == "import":
            p = subprocess.run(
                [sys.executable, "-W", "always", "-c", IMPORT_PROBE, core.REPO, core.VERIF],
                stdin=subprocess.DEVNULL, capture_output=True, timeout=240,
                env=dict(os.environ, NPV_REPO=core.REPO))
            out = p.stdout.decode("utf-8", "replace")
            if p.returncode or "\x00" not in out:
                raise core.Inconclusive("the import probe failed: " + p.stderr.decode("utf-8", "replace"))
            said, answer = out.split("\x00", 1)
            where, changed = json.loads(answer)
            self.observed["imports_observed"] += 1
            if changed:
                return "importing number_parser %s" % changed[0]
            said = (said + p.stderr.decode("utf-8", "replace")).strip()
            if said:
                return "importing number_parser writes %r" % said[:300]
            return None
        seen = in_child(observed_run, case["calls"])
        self.observed["calls_observed"] += len(case["calls"])
        self.observed["failing_calls"] += seen["failing"]
        self.observed["audit_events"] += seen["audited"]
        self.observed["state_items_compared"] += seen["watched"] * len(case["calls"])
        api.events += len(case["calls"])
        for op, text, lang, found in seen["problems"]:
            return "%s(%r, %r) %s" % (op, text[:200], lang, "; ".join(found))
        return None

    def extra(self):
        return self.observed


# ------------------------------------------------------------------------------------- C27


FLAVOURS = ("words", "look-alikes", "numbers", "digits", "unsupported", "short", "mixed", "long",
            "fuzz", "threads")


def fresh_word(rng):
    return "".join(rng.choice("bcdfghjklmnpqrstvwxz") for _ in range(rng.randint(5, 9)))


def short_token(rng, lang):
    """A token of a few characters or a number word that is not written plainly."""
    k = rng.random()
    if k < 0.2:
        return "".join(chr(rng.choice((rng.randrange(0x3400, 0x9fff), rng.randrange(0xac00, 0xd7a3),
                                       rng.randrange(0x1f300, 0x1f6ff)))) for _ in range(rng.randint(1, 2)))
    if k < 0.4:
        return "".join(rng.choice("abcxyzабвгдкаखगéñ0123456789٣") for _ in range(rng.randint(3, 4)))
    if k < 0.55:
        return rng.choice("abxyzбд") + "".join(
            rng.choice("\u0300\u0301\u0302\u0303\u0306\u0308\u030a\u0323\u0327\u0331") for _ in range(rng.randint(2, 4)))
    if k < 0.7:
        return "".join(rng.choice("!?#$%&*+-/:;<=>@^_|~,.'’") for _ in range(rng.randint(3, 5)))
    w = rng.choice(lx.L[lang].words)
    return "".join(rng.choice((c.upper(), c, c + "\u0301", c + "\xad")) for c in w)


def fresh_text(rng, flavour):
    """A call with a text (or language) nobody has used before."""
    op, lang = rng.choice(core.OPS), rng.choice(LANGS)
    given = None if rng.random() < 0.2 else lang
    if flavour == "unsupported":
        return op, number(rng, lang)[0], rng.choice(["zz", "en-", "EN_", ""]) + fresh_word(rng)
    if flavour == "numbers":
        t = lx.spell(lang, lx.structured(rng, lx.limit(lang)), rng)
        text = t if isinstance(t, str) else t.text()
        if rng.random() < 0.2:
            text += rng.choice([" over ", " by ", "/"]) + number(rng, lang)[0]
        return op, text, given
    if flavour == "digits":
        if rng.random() < 0.01:  # more than the interpreter converts: the call fails
            return op, "1" + str(rng.randrange(10**40)) + "0" * 4300, given
        return op, str(rng.randrange(10**rng.choice([9, 18, 60]))), given
    if flavour == "fuzz":
        return op, fuzz.text(rng, lang, 40) + fresh_word(rng), given
    if flavour == "short":
        return op, " ".join(short_token(rng, lang) for _ in range(rng.randint(1, 4))), given
    words = []
    for _ in range(rng.randint(40, 80) if flavour == "long" else rng.randint(1, 6)):
        k = rng.random()
        if flavour == "look-alikes" and k < 0.8:
            w = rng.choice(rng.choice([fuzz.ORDINALS[:], SHORT, fuzz.dictionary(), lx.L[lang].words]))
            f = rng.choice([fresh_word(rng), str(rng.randrange(10**6))])
            words.append(rng.choice([w + f, f + w, f + w + f, w.upper() + f, w + "-" + f, w + "'" + f]))
        elif k < 0.45:
            words.append(fresh_word(rng))
        elif k < 0.55:
            words.append(str(rng.randrange(10**8)))
        elif k < 0.65:
            words.append(rng.choice([",", ".", "-", "!"]))
        else:
            words.append(rng.choice(lx.L[lang].words))
    return op, " ".join(words), given


SHORT = ["first", "second", "third", "fifth", "eighth", "ninth", "twelfth", "one", "and", "th", "ieth"]


def in_use():
    gc.collect()
    return sys.getallocatedblocks(), tracemalloc.get_traced_memory()[0]


def quietly(fn, *args):
    try:
        fn(*args)
    except Exception:
        pass


def growth(seed, flavour, plan, traced=True):
    """Blocks and (traced, which is slow) bytes in use after each number of calls."""
    np = core.load()
    fns = {op: getattr(np, op) for op in core.OPS}
    rng = random.Random(seed)
    out = []
    pace = Pace(plan)
    if traced:
        tracemalloc.start()
    for n in plan:
        for i in range(n):
            if pace.late(i, n):
                break
            f = flavour if flavour not in ("mixed", "threads") else rng.choice(FLAVOURS[:6])
            op, text, lang = fresh_text(rng, f)
            if flavour == "threads":  # each call in a thread of its own
                t = threading.Thread(target=quietly, args=(fns[op], text, lang))
                t.start()
                t.join()
                continue
            try:
                fns[op](text, lang)
            except Exception:
                pass
        out.append(in_use() + (pace.made(i, n),))
    return out


def same_calls_growth(calls, plan, traced=True):
    np = core.load()
    out = []
    pace = Pace(plan)
    if traced:
        tracemalloc.start()
    for n in plan:
        for i in range(n):
            if pace.late(i, n):
                break
            for op, text, lang in calls:
                try:
                    getattr(np, op)(text, lang)
                except Exception:
                    pass
        out.append(in_use() + (pace.made(i, n) * len(calls),))
    return out


class Pace:
    """Ends a phase of calls early (after a quarter of it at least) when calls take ever longer, as they do in some leaks."""

    SECONDS = 60

    def __init__(self, plan):
        self.start = time.monotonic()
        self.total = sum(plan)
        self.done = 0

    def late(self, i, n):
        return i >= n // 4 and i % 50 == 0 and (
            time.monotonic() - self.start > self.SECONDS * (self.done + n) / self.total)

    def made(self, i, n):
        self.done += n
        return i + 1 if i + 1 == n else i


def rates(seen):
    """Blocks and bytes kept for each call, between the readings."""
    # taking a reading keeps a few hundred bytes itself
    return [((b[0] - a[0]) / b[2], max(0, b[1] - a[1] - 800) / b[2]) for a, b in zip(seen, seen[1:])]


SHAPES = {
    "words": lambda n, u: ("cow zebra " * n)[: n * 8],
    "numbers": lambda n, u: "one " * n,
    "scales": lambda n, u: "two million " * (n // 2),
    "fresh": lambda n, u: " ".join("w%dx" % i for i in range(n)),
    "sentences": lambda n, u: "five. six, " * (n // 2),
    "punctuation": lambda n, u: "! ? " * (n // 2),
    "conjunctions": lambda n, u: "one and " * (n // 2),
    "blanks": lambda n, u: "one" + " " * n + "two",
    "ordinals": lambda n, u: "twenty first " * (n // 2),
}
LANG_WORDS = {"es": "dos mil y ", "ru": "два миллион ", "uk": "два мільйон ", "hi": "दो लाख "}


def peak(op, text, lang):
    np = core.load()
    fn = getattr(np, op)
    try:
        fn("x", lang)
    except Exception:
        pass
    gc.collect()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        try:
            fn(text, lang)
        except Exception:
            pass
        return tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()


class C27(core.Prop):
    id = "C27"
    hang_guard = False
    #: a leak keeps at least this many blocks or bytes for each call, over tens of thousands of calls
    PER_CALL = (0.2, 0.5)
    RATIO = 3.0
    rule = ("Blocks and bytes in use by the interpreter after tens of thousands of calls with texts never seen before (a process "
            "for each run) stop growing; peak memory of one call for texts of 1,500 and of 15,000 words stays in "
            "proportion. Non-trivial: distinct runs and text shapes.")
    required = ("many-texts", "one-text")
    min_evaluations = 10

    def __init__(self):
        self.observed = {"calls_measured": 0, "max_blocks_per_call_x1000": 0,
                         "max_bytes_per_call_x1000": 0, "max_peak_ratio_x100": 0,
                         "runs_extended": 0}

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 6
        for r in range(2 * scale):
            yield {"k": "many-texts", "seed": rng.randrange(10**9),
                   "flavour": FLAVOURS[(shard + r * nshards) % len(FLAVOURS)]}
        yield {"k": "same-texts", "calls": calls_of(rng, 25)}
        shapes = [(s, None) for s in SHAPES] + [("lang", x) for x in sorted(LANG_WORDS)]
        for i, (s, lang) in enumerate(shapes):
            for j, op in enumerate(core.OPS):
                if (i * 4 + j) % nshards == shard:
                    for given in ([lang, None] if lang else ["en", None]):
                        yield {"k": "one-text", "shape": s, "word": lang, "op": op, "lang": given}

    def judge(self, case, api):
        if case["k"] == "many-texts":
            few = 10 if case["flavour"] == "long" else 1
            plans = [[n // few for n in p] for p in (
                (1500, 2500, 2500), (20000, 40000, 40000), (4000, 8000, 8000))]

            def run(plan, i, traced):
                return rates(in_child(growth, case["seed"] + i, case["flavour"], plan, traced))
            what = "texts never seen before (%s)" % case["flavour"]
        elif case["k"] == "same-texts":
            count = len(case["calls"])
            plans = [[n * count for n in p] for p in ((20, 40, 40), (200, 400, 400), (80, 160, 160))]

            def run(plan, i, traced):
                return rates(in_child(same_calls_growth, case["calls"], [n // count for n in plan], traced))
            what = "repetitions of the same %d calls (%r ...)" % (count, case["calls"][:3])
        else:
            return self.judge_peak(case, api)
        last = run(plans[0], 0, True)[-1]
        self.count(api, sum(plans[0]), last)
        for i, unit in enumerate(("blocks", "bytes")):
            least = self.PER_CALL[i]
            if last[i] < least:
                continue
            # a bounded cache fills up and stops growing; a leak does not
            self.observed["runs_extended"] += 1
            a, b = [r[i] for r in run(plans[1 + i], 1, unit == "bytes")]
            self.count(api, sum(plans[1 + i]), (0, 0))
            if b >= least and b >= 0.7 * a:
                return "memory grows without bound: %.2f %s for each of %d %s, then %.2f for each of %d more" % (
                    a, unit, plans[1 + i][1], what, b, plans[1 + i][2])
            break  # the calls do keep something, within bounds
        return None

    def count(self, api, calls, rate):
        self.observed["calls_measured"] += calls
        api.events += calls
        for name, x in zip(("max_blocks_per_call_x1000", "max_bytes_per_call_x1000"), rate):
            self.observed[name] = max(self.observed[name], int(x * 1000))

    def judge_peak(self, case, api):
        make = SHAPES.get(case["shape"]) or (
            lambda n, u: LANG_WORDS[case["word"]] * (n // len(LANG_WORDS[case["word"]].split())))
        small = in_child(peak, case["op"], make(1500, 0), case["lang"])
        large = in_child(peak, case["op"], make(15000, 0), case["lang"])
        api.events += 2
        ratio = (large / 15000) / max(small / 1500, 20)
        self.observed["max_peak_ratio_x100"] = max(self.observed["max_peak_ratio_x100"], int(ratio * 100))
        if ratio > self.RATIO:
            return ("%s needs %d bytes for 1,500 words of the shape %r and %d for 15,000 (language %r)"
                    % (case["op"], small, case["shape"], large, case["lang"]))
        return None

    def extra(self):
        return self.observed


# ------------------------------------------------------------------------------------- C28

_SCRIPT = os.path.join(core.VERIF, "npv", "envrun.py")
_TMP = None

BASE = {"args": [], "env": {}, "prepare": {}}


def variants(rng):
    """Ways to start a process that have nothing to do with the texts."""
    fixed = [
        {"env": {"LC_ALL": "C"}},
        {"env": {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}},
        {"env": {"LC_ALL": "C.UTF-8", "LANG": "es_ES.UTF-8", "LANGUAGE": "es"}},
        {"env": {"LANG": "ru_RU.UTF-8", "LC_ALL": "ru_RU.UTF-8", "LANGUAGE": "ru:uk"}},
        {"env": {"LANG": "hi_IN", "LC_CTYPE": "hi_IN"}},
        {"env": {"LANG": "uk_UA.UTF-8", "LANGUAGE": "uk"}},
        {"locales": True, "env": {"LC_ALL": "es_ES.UTF-8"}, "prepare": {"setlocale": "es_ES.UTF-8"}},
        {"locales": True, "env": {"LC_ALL": "ru_RU.UTF-8"}, "prepare": {"setlocale": "ru_RU.UTF-8"}},
        {"locales": True, "env": {"LC_ALL": "uk_UA.UTF-8"}, "prepare": {"setlocale": "uk_UA.UTF-8"}},
        {"locales": True, "env": {"LC_ALL": "hi_IN.UTF-8"}, "prepare": {"setlocale": "hi_IN.UTF-8"}},
        {"locales": True, "env": {"LC_ALL": "tr_TR.UTF-8"}, "prepare": {"setlocale": "tr_TR.UTF-8"}},
        {"locales": True, "env": {"LC_ALL": "es_ES.UTF-8"}},
        {"prepare": {"setlocale": "C"}},
        {"env": {"PYTHONUTF8": "1"}},
        {"env": {"PYTHONIOENCODING": "latin-1"}},
        {"args": ["-O"]},
        {"args": ["-OO"]},
        {"args": ["-bb", "-W", "error"]},
        {"args": ["-X", "dev"]},
        {"args": ["-X", "int_max_str_digits=0"]},
        {"prepare": {"digits": 5000}},
        {"args": ["-I"]},
        {"args": ["-s", "-E"]},
        {"env": {"TZ": "Asia/Kolkata", "HOME": "/nonexistent", "TERM": "dumb", "USER": "", "DEBUG": "1",
                 "CI": "true", "NO_COLOR": "1"}},
        {"env": {"clear": True}},
        {"cwd": "/"},
        {"cwd": "tmp"},
        {"prepare": {"decimal": True}},
        {"prepare": {"gc": True}},
        {"prepare": {"trace": True}},
        {"prepare": {"random": 7}},
        {"prepare": {"closed": True}},
        {"prepare": {"thread": True}},
        {"prepare": {"exec": True}},
        {"prepare": {"depth": 500}},
        {"prepare": {"argv": ["prog", "--debug", "-v", "es"]}},
        {"prepare": {"clock": 1}},
        {"prepare": {"clock": 4102444800}},
        {"prepare": {"platform": "win32"}},
        {"prepare": {"platform": "darwin"}},
        {"prepare": {"thread": "small"}},
        {"prepare": {"coroutine": True}},
        {"prepare": {"fork": 1}},
        {"prepare": {"fork": 60}},
        {"prepare": {"subinterpreter": True}},
        {"prepare": {"signal": True}},
        {"prepare": {"how": "subclass"}},
        {"prepare": {"how": "keyword"}},
        {"prepare": {"ps1": True}},
        {"prepare": {"argv": []}},
        {"prepare": {"argv": None}},
        {"prepare": {"profile": True}},
        {"prepare": {"umask": 0o777}},
        {"prepare": {"files": 24}},
        {"prepare": {"switch": 1e-6, "busy": 5}},
        {"prepare": {"busy": 40}},
        {"prepare": {"modules": ["unittest", "doctest", "pytest", "_pytest", "hypothesis", "numpy", "pandas", "IPython",
                                 "django", "scrapy", "dateparser", "celery", "gevent", "icu", "regex", "babel",
                                 "idlelib", "pdb", "coverage", "six", "setuptools"]}},
        {"prepare": {"modules": ["asyncio", "multiprocessing", "concurrent.futures", "ctypes", "sqlite3", "tkinter",
                                 "readline", "locale", "gettext", "stringprep", "decimal", "fractions", "numbers",
                                 "logging.config", "unicodedata", "curses", "cProfile", "tracemalloc"]}},
        {"prepare": {"import": "thread", "thread": True}},
        {"prepare": {"import": "module"}},
        {"prepare": {"import": "star"}},
        {"prepare": {"handling": True}},
        {"prepare": {"finalizer": True}},
        {"prepare": {"generator": True}},
        {"prepare": {"exit": True}},
        {"tty": True},
        {"args": ["-S"]},
        {"args": ["-B", "-P", "-q"]},
        {"args": ["-X", "frozen_modules=off", "-X", "tracemalloc=2"]},
        {"deploy": "zip"},
        {"deploy": "copy", "folder": "мой каталог %s {1}"},
        {"deploy": "bytecode"},
        {"deploy": "read-only"},
        {"deploy": "link"},
    ]
    for _ in range(12):
        fixed.append({"env": {"PYTHONHASHSEED": str(rng.randrange(2**32))}})
    return fixed


def asked(calls):
    """Environment variables and files the package asks for, or names in capitals (such variables perhaps)."""
    seen, why = run_variant({"prepare": {"spy": True}}, calls)
    if seen is None:
        raise core.Inconclusive("a plain process failed: " + why)
    names = set(seen["names"])
    names.update(s for s in core.mined_constants()[1] if re.fullmatch("[A-Z][A-Z0-9]*_[A-Z0-9_]*", s))
    names = {n for n in names if not n.startswith(("PYTHON", "LD_")) and n not in ("PATH", "LOCPATH")}
    paths = {os.path.normpath(p) for p in seen["paths"] if not os.path.isabs(p)}
    for p in seen["paths"]:
        home = os.path.expanduser("~")
        if os.path.isabs(p) and os.path.commonpath([p, home]) == home and home != "/":
            paths.add(os.path.relpath(p, home))
        for base in (core.VERIF,):
            if p.startswith(base + "/"):
                paths.add(os.path.relpath(p, base))
    return sorted(names)[:30], sorted(p for p in paths if not p.startswith(".."))[:10]


VALUES = ("es", "ru", "hi", "uk", "en", "1", "0", "", "true", "xx", "1000", "/nonexistent")
CONTENTS = ("es\n", '{"language": "es", "default_language": "es"}', "[number_parser]\nlanguage = es\n",
            "language: es\n", "info = {}\n", "")


def derived(rng, calls):
    names, paths = asked(calls)
    for name in names:
        for value in VALUES[:5] + tuple(rng.sample(VALUES[5:], 2)):
            yield {"env": {name: value}}
    for path in paths:
        for text in CONTENTS:
            yield {"cwd": "tmp", "files": {path: text}}


def locale_dir(scratch):
    """Locales of these names, made in `scratch`: compiled if localedef works, or copies of C.utf8."""
    names = {v["env"]["LC_ALL"] for v in variants(random.Random(0)) if v.get("locales")}
    for name in sorted(names):
        target = os.path.join(scratch, name)
        try:
            subprocess.run(["localedef", "--no-archive", "-i", name.split(".")[0], "-f", "UTF-8", target],
                           capture_output=True, timeout=120)
        except (OSError, subprocess.TimeoutExpired):
            pass
        if not os.path.exists(os.path.join(target, "LC_CTYPE")):
            import shutil

            shutil.rmtree(target, ignore_errors=True)
            try:
                shutil.copytree("/usr/lib/locale/C.utf8", target)
            except OSError:
                return False
    return True


def deploy(kind, folder, scratch):
    """A copy of the package, installed in some other way; the entry for sys.path."""
    import compileall
    import shutil
    import zipfile

    home = os.path.join(scratch, folder)
    os.makedirs(home)
    package = os.path.join(home, "number_parser")
    shutil.copytree(os.path.join(core.REPO, "number_parser"), package,
                    ignore=shutil.ignore_patterns("__pycache__"))
    if kind == "link":
        os.rename(package, os.path.join(home, "elsewhere"))
        os.symlink("elsewhere", package)
    elif kind == "bytecode":
        compileall.compile_dir(package, quiet=2, legacy=True)
        for base, _, names in os.walk(package):
            for n in names:
                if n.endswith(".py"):
                    os.unlink(os.path.join(base, n))
    elif kind == "zip":
        path = os.path.join(home, "packages.zip")
        with zipfile.ZipFile(path, "w") as z:
            for base, _, names in os.walk(package):
                for n in names:
                    full = os.path.join(base, n)
                    z.write(full, os.path.relpath(full, home))
        shutil.rmtree(package)
        home = path
    for base, dirs, names in os.walk(scratch):
        os.chmod(base, 0o755 if kind != "read-only" else 0o555)
        for n in names:
            os.chmod(os.path.join(base, n), 0o644 if kind != "read-only" else 0o444)
    return home


def nobody():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def can_drop():
    """Can an unprivileged user run this interpreter and the script here?"""
    try:
        return subprocess.run([sys.executable, "-c", "import json, sys; open(sys.argv[1]).close()", _SCRIPT], cwd="/",
                              preexec_fn=nobody, capture_output=True, timeout=60).returncode == 0
    except (OSError, subprocess.SubprocessError):
        return False


def on_terminal(job, env, cwd):
    """The same with a terminal for input and output; the calls and results go through files."""
    import pty

    master, slave = pty.openpty()
    try:
        with tempfile.NamedTemporaryFile() as given, tempfile.NamedTemporaryFile() as answer:
            given.write(job)
            given.flush()
            p = subprocess.run([sys.executable, _SCRIPT, "--files", given.name, answer.name], env=env, cwd=cwd,
                               stdin=slave, stdout=slave, stderr=subprocess.PIPE, timeout=300)
            if p.returncode:
                return None, p.stderr.decode("utf-8", "replace")[-600:]
            return json.load(answer), None
    finally:
        os.close(master)
        os.close(slave)


def run_variant(v, calls):
    env = dict(os.environ)
    for name in list(env):
        if name.startswith(("LC_", "PYTHON", "LANG")):
            del env[name]
    env["LC_ALL"] = "C.UTF-8"
    env["PYTHONHASHSEED"] = "0"
    changes = dict(v.get("env", {}))
    if changes.pop("clear", False):
        env = {}
    if any(k.startswith(("LC_", "LANG")) for k in changes):
        env.pop("LC_ALL", None)
    env.update(changes)
    cwd = v.get("cwd")
    scratch = None
    if v.get("locales"):
        scratch = tempfile.mkdtemp(prefix="npv-locale-")
        if not locale_dir(scratch):
            v = dict(v, prepare={})
        env["LOCPATH"] = scratch
    place, unprivileged = core.REPO, None
    if v.get("deploy"):
        scratch = tempfile.mkdtemp(prefix="npv-deploy-")
        place = deploy(v["deploy"], v.get("folder", "site"), scratch)
        if v["deploy"] == "read-only" and os.getuid() == 0 and can_drop():
            unprivileged = nobody
            cwd = "/"
    if cwd == "tmp":
        scratch = cwd = tempfile.mkdtemp(prefix="npv-cwd-")
        # files with names a careless look-up would take for the package's own
        os.mkdir(os.path.join(cwd, "data"))
        os.mkdir(os.path.join(cwd, "number_parser"))
        for name in ("en.py", "data/en.py", "en.json", "data/en.json", "es", "ru.py", "config.json",
                     "number_parser.ini", ".number_parser", "setup.cfg"):
            with open(os.path.join(cwd, name), "w") as f:
                f.write("info = {}\n")
        for name, text in v.get("files", {}).items():
            name = os.path.join(cwd, name)
            if not os.path.isdir(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
                with open(name, "w") as f:
                    f.write(text)
                env["HOME"] = env["XDG_CONFIG_HOME"] = cwd
    job = json.dumps({"repo": place, "calls": calls, "prepare": v.get("prepare", {})}).encode()
    try:
        if v.get("tty"):
            return on_terminal(job, env, cwd or core.VERIF)
        p = subprocess.run(
            [sys.executable, *v.get("args", []), _SCRIPT], input=job,
            capture_output=True, env=env, cwd=cwd or core.VERIF, timeout=300, preexec_fn=unprivileged)
    finally:
        if scratch:
            import shutil

            shutil.rmtree(scratch, ignore_errors=True)
    if p.returncode:
        return None, p.stderr.decode("utf-8", "replace")[-600:]
    return json.loads(p.stdout), None


class C28(core.Prop):
    id = "C28"
    hang_guard = False
    rule = ("The same calls (all entry points, languages and detection, ties between languages, failing calls) in processes "
            "started with other hash seeds, locales, encodings, optimization levels, warning filters, directories, "
            "environment variables and interpreter settings, with the package installed in other ways (zip, bytecode, "
            "read-only, linked) or called from other places (threads, coroutines, signal handlers, forked children, "
            "sub-interpreters); each result is compared with that of a plain "
            "process. Non-trivial: distinct pairs of a way to start and a set of calls.")
    required = ("variant",)
    min_evaluations = 40

    def __init__(self):
        self.reference = {}
        self.observed = {"calls_compared": 0, "distinct_ways": set(), "failing_calls": 0,
                         "texts_with_detection": 0}

    def corpus(self, rng, n):
        calls = [tuple(c) for c in calls_of(rng, n)]
        shared = ["un", "mil", "cien", "два", "три", "сто", "once", "y", "and", "one dos", "dos one два",
                  "two три", "uno два", "एक one", "две дві", "три", "п'ять пять", "o", "1 one", "",
                  "hola", "uno one", "and y", "первый first", "twenty-first of mil", "null", "zero cero ноль"]
        for t in shared:
            for op in core.OPS:
                calls.append((op, t, None))
        for _ in range(n // 3):
            words = [rng.choice(lx.L[rng.choice(LANGS)].words) for _ in range(rng.randint(2, 6))]
            calls.append((rng.choice(core.OPS), " ".join(words), None))
        # the limit on digits is an interpreter setting of its own
        calls = [c for c in calls if fuzz.max_digit_run(re.sub(r"\s", "", c[1])) <= 4000]
        rng.shuffle(calls)
        return [list(c) for c in calls]

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 10
        for r in range(scale):
            seed = rng.randrange(10**9)
            ways = variants(random.Random("%s/%d" % (seed, shard)))
            ways += derived(random.Random(seed), self.corpus(random.Random(seed), 60))
            for i, v in enumerate(ways):
                if (i + r) % nshards == shard or tier != "quick":
                    yield {"k": "variant", "way": v, "seed": seed, "n": 900}

    def judge(self, case, api):
        key = (case["seed"], case["n"])
        if key not in self.reference:
            self.reference.clear()
            calls = self.corpus(random.Random(case["seed"]), case["n"])
            plain, why = run_variant(BASE, calls)
            if plain is None:
                raise core.Inconclusive("a plain process failed: " + why)
            self.reference[key] = calls, plain
        calls, plain = self.reference[key]
        other, why = run_variant(case["way"], calls)
        if other is None:
            return "in a process started with %r the calls fail: %s" % (case["way"], why)
        if not case["way"].get("deploy") and os.path.realpath(other["file"]) != os.path.realpath(plain["file"]):
            raise core.Inconclusive("imported %s" % other["file"])
        self.observed["distinct_ways"].add(json.dumps(case["way"], sort_keys=True))
        self.observed["calls_compared"] += len(calls)
        api.events += len(calls)
        for call, a, b in zip(calls, plain["results"], other["results"]):
            self.observed["texts_with_detection"] += call[2] is None
            self.observed["failing_calls"] += a[0] == "exc"
            if a != b:
                return "%s(%r, %r) gives %r, but %r in a process started with %r" % (
                    call[0], call[1][:200], call[2], a, b, case["way"])
        return None

    def extra(self):
        return self.observed


# ------------------------------------------------------------------------------------- C29


class C29(core.Prop):
    id = "C29"
    hang_guard = False
    rule = ("A call in which KeyboardInterrupt, another BaseException or MemoryError arrives at a chosen line (cold: in the "
            "first call of a process; warm: after others), followed by the same call and others: the exception "
            "reaches the caller and each later outcome is that of the same call alone in a fresh process. "
            "Non-trivial: distinct calls and points.")
    required = ("warm", "cold")
    min_evaluations = 40

    def __init__(self):
        self.c19 = C19()
        self.observed = {"interruptions_made": 0, "distinct_points": set(), "later_calls_compared": 0}

    def cases(self, rng, tier, shard, nshards):
        scale = 1 if tier == "quick" else 15
        for _ in range(14 * scale):
            for warm in (True, False):
                a = self.c19.busy(rng)
                if rng.random() < 0.3:
                    a = self.c19.pool(rng, 1)[0]
                others = [self.c19.busy(rng) for _ in range(3)]
                if rng.random() < 0.5:
                    others.append((rng.choice(core.OPS), rng.choice(others)[1], None))
                yield {"k": "warm" if warm else "cold", "a": list(a),
                       "others": [list(a)] + [list(o) for o in others],
                       "points": 25 if warm else 4, "seed": rng.randrange(10**9)}

    def judge(self, case, api):
        c19 = self.c19
        if c19.zygote is None:
            c19.zygote = Zygote()
        a = tuple(case["a"])
        others = [tuple(o) for o in case["others"]]
        rng = random.Random(case["seed"])
        counts = c19.zygote.ask("profile", a, False)
        places = sorted(counts)
        if not places:
            return None
        points = []
        for _ in range(case["points"]):
            place = rng.choice(places)
            n = counts[place]
            points.append((place, rng.choice([1, n, rng.randint(1, n)]), rng.choice(sorted(INTERRUPTS))))
        warm = case["k"] == "warm"
        for group in ([points] if warm else [[p] for p in points]):
            results = c19.zygote.ask("interrupted", a, others, group, warm)
            for (place, nth, kind), (fired, got, later) in zip(group, results):
                api.events += 1 + len(later)
                at = "%s arriving in %s (line %d) at its pass %d through it" % (kind, place[0], place[2], nth)
                if fired:
                    self.observed["interruptions_made"] += 1
                    self.observed["distinct_points"].add((place, nth))
                    if kind != "MemoryError" and got != ("exc", INTERRUPTS[kind].__name__):
                        return "%s(%r, %r) with %s ends as %r" % (*a, at, got)
                for call, out in zip(others, later):
                    self.observed["later_calls_compared"] += 1
                    want = c19.alone(call)
                    if out != want:
                        return "after %s(%r, %r) with %s, %s(%r, %r) gives %r, but %r alone" % (
                            *a, at, *call, out, want)
        return None

    def extra(self):
        self.c19.extra()
        return self.observed
