"""Runs calls in a process with a given environment; reads and writes ASCII JSON.

Started by C26 and C28 as a script of its own, so it imports nothing from this package."""

import json
import os
import sys


class Text(str):
    """A str like those of libraries that mark or measure texts."""


def outcome(fn, text, lang, how=None):
    try:
        if how == "subclass":
            text, lang = Text(text), None if lang is None else Text(lang)
        if how == "keyword":
            v = fn(text, language=lang)
        else:
            v = fn(text) if lang is None else fn(text, lang)
        if how == "subclass" and type(v) is Text:
            v = str(v)
        return ["ok", type(v).__name__, v]
    except Exception as e:
        return ["exc", type(e).__name__, None]


def prepare(what):
    if what.get("setlocale"):
        import locale

        locale.setlocale(locale.LC_ALL, what["setlocale"])
    if what.get("decimal"):
        import decimal

        decimal.getcontext().prec = 2
        decimal.setcontext(decimal.Context(prec=2, traps=[decimal.Inexact]))
    if what.get("digits"):
        sys.set_int_max_str_digits(what["digits"])
    if what.get("gc"):
        import gc

        gc.disable()
    if what.get("trace"):
        sys.settrace(lambda *a: None)
    if what.get("random"):
        import random

        random.seed(what["random"])
    if what.get("closed"):
        for fd in (1, 2):
            os.dup2(os.open(os.devnull, os.O_RDWR), fd)
        sys.stdout = sys.stderr = None
        sys.stdin = None
        os.close(0)
        os.open(os.devnull, os.O_RDONLY)
    if what.get("numbers"):
        import numbers  # noqa: F401
    if "argv" in what:
        if what["argv"] is None:
            del sys.argv
        else:
            sys.argv[:] = what["argv"]
    if what.get("ps1"):
        sys.ps1, sys.ps2 = ">>> ", "... "
    if what.get("profile"):
        sys.setprofile(lambda *a: None)
    if what.get("umask"):
        os.umask(what["umask"])
    if what.get("files"):
        import resource

        resource.setrlimit(resource.RLIMIT_NOFILE, (what["files"], what["files"]))
    if what.get("switch"):
        sys.setswitchinterval(what["switch"])
    for name in what.get("modules", ()):
        try:
            __import__(name)
        except ImportError:
            # a stand-in is enough for code that looks at what is loaded
            import types

            sys.modules[name] = types.ModuleType(name)
            sys.modules[name].__version__ = "1.0"
    if what.get("busy"):
        import threading
        import time

        for i in range(what["busy"]):
            threading.Thread(target=time.sleep, args=(600,), daemon=True, name="busy-%d" % i).start()
    if what.get("platform"):
        import importlib  # noqa: F401
        import re  # noqa: F401
        import threading  # noqa: F401
        import unicodedata  # noqa: F401

        sys.platform = what["platform"]
        os.name = "nt" if what["platform"] == "win32" else "posix"
    if what.get("clock"):
        clock(what["clock"])


def clock(now):
    import datetime
    import time

    real = time.monotonic()
    step = [0]

    def seconds():
        step[0] += 3600
        return now + step[0]

    time.time = time.monotonic = time.perf_counter = seconds
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: seconds() * 10**9
    del real

    class Moment(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(seconds(), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(seconds())

        today = now

    class Day(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(seconds())

    datetime.datetime, datetime.date = Moment, Day


SUB = """
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
sys.path.insert(0, %r)
import envrun
sys.path.pop(0)
import number_parser as np
with open(%d, "rb", closefd=False) as f:
    f.seek(0)
    calls = json.loads(f.read())
data = json.dumps([envrun.outcome(getattr(np, op), t, l) for op, t, l in calls]).encode("ascii")
os.write(%d, b"")
while data:
    data = data[os.write(%d, data):]
"""


def subinterpreter(repo, calls):
    try:
        import _interpreters as sub
    except ImportError:
        import _xxsubinterpreters as sub
    given, answer = os.memfd_create("calls"), os.memfd_create("answer")
    os.write(given, json.dumps(calls).encode("ascii"))
    me = sub.create(isolated=False) if "isolated" in (sub.create.__text_signature__ or "isolated") else sub.create()
    here = os.path.dirname(os.path.abspath(__file__))
    sub.run_string(me, SUB % (repo, here, given, answer, answer))
    with open(answer, "rb") as f:
        f.seek(0)
        return json.loads(f.read())


def spy(repo, names, paths):
    """Records which environment variables and files are asked for from here on."""
    import builtins
    import io

    kept = []
    cls = type(os.environ)
    for name in ("__getitem__", "__contains__", "get", "pop", "setdefault"):
        real = getattr(cls, name)

        def look(self, key, *rest, real=real):
            if isinstance(key, (str, bytes)):
                names.add(os.fsdecode(key))
            return real(self, key, *rest)

        kept.append(look)
        setattr(cls, name, look)
    inside = tuple(os.path.join(os.path.realpath(p), "") for p in (repo, sys.prefix, sys.base_prefix, os.path.dirname(os.__file__)))

    def see(path):
        if isinstance(path, (str, bytes, os.PathLike)):
            path = os.fsdecode(path)
            if not os.path.abspath(path).startswith(inside):
                paths.add(path)

    for module, name in ((os, "stat"), (os, "lstat"), (os, "access"), (os, "open"), (os, "listdir"), (os, "scandir"),
                         (os, "readlink"), (builtins, "open"), (io, "open")):
        def look(path=".", *rest, real=getattr(module, name), **named):
            see(path)
            return real(path, *rest, **named)

        setattr(module, name, look)


def nested(depth, run):
    return run() if depth <= 0 else nested(depth - 1, run)


def main():
    if sys.argv[1:2] == ["--files"]:
        with open(sys.argv[2]) as f:
            job = json.load(f)
        out = os.open(sys.argv[3], os.O_WRONLY)
        del sys.argv[1:]
    else:
        job = json.loads(sys.stdin.read())
        out = os.dup(1)
    sys.dont_write_bytecode = True
    sys.path.insert(0, job["repo"])
    what = job.get("prepare", {})
    prepare(what)
    names, paths = set(), set()
    if what.get("spy"):
        spy(job["repo"], names, paths)
    if what.get("import") == "thread":
        import threading

        t = threading.Thread(target=__import__, args=("number_parser",))
        t.start()
        t.join()
    elif what.get("import") == "module":
        import number_parser.parser  # noqa: F401
    elif what.get("import") == "star":
        exec("from number_parser import *", {})
    import number_parser as np

    result = []

    def run():
        for op, text, lang in job["calls"]:
            result.append(outcome(getattr(np, op), text, lang, what.get("how")))

    if what.get("thread"):
        import threading

        if what["thread"] == "small":
            threading.stack_size(256 << 10)
        t = threading.Thread(target=run)
        t.start()
        t.join()
    elif what.get("coroutine"):
        import asyncio

        async def later():
            for op, text, lang in job["calls"]:
                result.append(outcome(getattr(np, op), text, lang))
                await asyncio.sleep(0)

        asyncio.run(later())
    elif what.get("fork"):
        for op, text, lang in job["calls"][:what["fork"] - 1]:
            outcome(getattr(np, op), text, lang)
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            run()
            with open(w, "w") as f:
                f.write(json.dumps(result))
            os._exit(0)
        os.close(w)
        with open(r) as f:
            result = json.loads(f.read())
        os.waitpid(pid, 0)
    elif what.get("subinterpreter"):
        result = subinterpreter(job["repo"], job["calls"])
    elif what.get("signal"):
        import signal

        signal.signal(signal.SIGUSR1, lambda *a: run())
        os.kill(os.getpid(), signal.SIGUSR1)
        while len(result) < len(job["calls"]):
            pass
    elif what.get("handling"):
        try:
            raise LookupError("something the caller is dealing with")
        except LookupError:
            run()
    elif what.get("finalizer"):
        class Last:
            def __del__(self):
                run()

        Last()
    elif what.get("generator"):
        def steps():
            for op, text, lang in job["calls"]:
                yield outcome(getattr(np, op), text, lang)

        result.extend(steps())
    elif what.get("exit"):
        import atexit

        atexit.register(lambda: (run(), answer(out, np, result, names, paths)))
        return
    elif what.get("exec"):
        exec("run()", {"run": run})
    else:
        nested(what.get("depth", 0), run)
    answer(out, np, result, names, paths)


def answer(out, np, result, names, paths):
    sys.settrace(None)
    sys.setprofile(None)
    data = json.dumps({"file": np.__file__, "results": result, "names": sorted(names),
                       "paths": sorted(paths)}).encode("ascii")
    while data:
        data = data[os.write(out, data):]


if __name__ == "__main__":
    main()
