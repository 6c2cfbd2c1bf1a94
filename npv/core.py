"""Boundary recorder, worker pool, verdicts and evidence shared by every monitor.

The code under test is always imported from the working tree of REPO (default
/repo) with bytecode caches disabled, and is only ever driven through its public
entry points.  Every call is an event {op, text, language, outcome}; oracles judge
events, never the implementation.
"""

import ast
import hashlib
import json
import os
import random
import re
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NPV_REPO", "/repo")
LANGS = ("en", "es", "hi", "ru", "uk")
OPS = ("parse", "parse_number", "parse_ordinal", "parse_fraction")

EXIT_HELD, EXIT_VIOLATED, EXIT_INCONCLUSIVE = 0, 1, 3

_np = None


class Inconclusive(Exception):
    pass


def load():
    """Imports number_parser from REPO's working tree, never from a bytecode cache."""
    global _np
    if _np is None:
        sys.dont_write_bytecode = True
        sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "npv-no-pycache-%d" % os.getpid())
        sys.path.insert(0, REPO)
        for name in [m for m in sys.modules if m.split(".")[0] == "number_parser"]:
            del sys.modules[name]
        import number_parser

        where = os.path.realpath(number_parser.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise Inconclusive("number_parser came from %s, not %s" % (where, REPO))
        _np = number_parser
    return _np


# --------------------------------------------------------------------------- events


class Out:
    """Outcome of one call: ('ok', value), ('exc', 'ValueError: ...') or ('hang', steps)."""

    __slots__ = ("kind", "value", "mro")

    def __init__(self, kind, value, mro=()):
        self.kind = kind
        self.value = value
        self.mro = mro

    def raised(self, name):
        return self.kind == "exc" and name in self.mro

    def is_(self, expected):
        """Same value and same type."""
        return (
            self.kind == "ok"
            and type(self.value) is type(expected)
            and self.value == expected
        )

    def same(self, other):
        return (
            self.kind == other.kind
            and type(self.value) is type(other.value)
            and self.value == other.value
        )

    def __repr__(self):
        r = repr(self.value) if self.kind == "ok" else "%s(%s)" % (self.kind, self.value)
        return r if len(r) < 600 else r[:300] + "..." + r[-280:]


class _Hang(BaseException):
    pass


HANG_SECONDS = 30
HANG_STEPS = 20_000_000


def _alarm(signum, frame):
    raise _Hang()


class Api:
    """The client boundary: one method per public entry point, recording every event."""

    def __init__(self):
        self.np = load()
        self.events = 0
        self.by_op = {}
        self.by_lang = {}
        self.by_outcome = {}
        self.max_len = 0
        self.numbers = 0
        self.longest_digits = 0
        self.hang_guard = False

    def call(self, op, text, language=None):
        self.events += 1
        self.by_op[op] = self.by_op.get(op, 0) + 1
        key = str(language)
        if key in LANGS or key == "None":
            self.by_lang[key] = self.by_lang.get(key, 0) + 1
        else:
            self.by_lang["other"] = self.by_lang.get("other", 0) + 1
        if len(text) > self.max_len:
            self.max_len = len(text)
        fn = getattr(self.np, op)
        out = self._guarded(fn, text, language)
        label = type(out.value).__name__ if out.kind == "ok" else (
            out.kind + ":" + str(out.value).split(":")[0])
        self.by_outcome[label] = self.by_outcome.get(label, 0) + 1
        return out

    def _guarded(self, fn, text, language):
        if self.hang_guard:
            signal.setitimer(signal.ITIMER_REAL, HANG_SECONDS)
        try:
            if language is None and self.events % 2:
                value = fn(text)
            elif self.events % 3:
                value = fn(text, language)
            else:
                value = fn(text, language=language)
            return Out("ok", value)
        except _Hang:
            return self._confirm_hang(fn, text, language)
        except Exception as e:
            return Out("exc", "%s: %s" % (type(e).__name__, str(e)[:160]),
                       tuple(c.__name__ for c in type(e).__mro__))
        finally:
            if self.hang_guard:
                signal.setitimer(signal.ITIMER_REAL, 0)

    def _confirm_hang(self, fn, text, language):
        """A wall-clock alarm is only a suspicion; the verdict counts executed lines."""
        signal.setitimer(signal.ITIMER_REAL, 0)
        steps = 0

        def tracer(frame, event, arg):
            nonlocal steps
            steps += 1
            if steps > HANG_STEPS:
                raise _Hang()
            return tracer

        sys.settrace(tracer)
        try:
            return Out("ok", fn(text, language))
        except _Hang:
            return Out("hang", "more than %d steps" % HANG_STEPS)
        except Exception as e:
            return Out("exc", "%s: %s" % (type(e).__name__, str(e)[:160]))
        finally:
            sys.settrace(None)

    def parse(self, text, language=None):
        return self.call("parse", text, language)

    def number(self, text, language=None):
        return self.call("parse_number", text, language)

    def ordinal(self, text, language=None):
        return self.call("parse_ordinal", text, language)

    def fraction(self, text, language=None):
        return self.call("parse_fraction", text, language)

    def stats(self):
        return {
            "events": self.events,
            "by_op": self.by_op,
            "by_lang": self.by_lang,
            "by_outcome": self.by_outcome,
            "longest_text": self.max_len,
        }


# ----------------------------------------------------------------- coverage of the code


class LineCoverage:
    """Lines of number_parser reached, through sys.monitoring (one event per line)."""

    def __init__(self):
        self.lines = set()
        self.tool = None

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        root = os.path.realpath(os.path.join(REPO, "number_parser")) + os.sep
        self.tool = 3
        try:
            mon.use_tool_id(self.tool, "npv")
        except ValueError:
            self.tool = None
            return

        def on_line(code, line):
            fn = os.path.realpath(code.co_filename)
            if fn.startswith(root) and os.sep + "data" + os.sep not in fn:
                self.lines.add((os.path.basename(fn), line))
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.set_events(self.tool, mon.events.LINE)

    def stop(self):
        if self.tool is not None:
            sys.monitoring.set_events(self.tool, 0)
            sys.monitoring.free_tool_id(self.tool)
            self.tool = None


# ----------------------------------------------------------------- fuzz dictionary


def mined_constants():
    """Literals of the code under test, used as a fuzzing dictionary (never as an oracle)."""
    ints, strings = set(), set()
    root = os.path.join(REPO, "number_parser")
    for name in sorted(os.listdir(root)):
        if not name.endswith(".py"):
            continue
        try:
            tree = ast.parse(open(os.path.join(root, name), encoding="utf-8").read())
        except (SyntaxError, OSError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                if type(node.value) is int and 0 <= node.value < 10**130:
                    ints.add(node.value)
                elif type(node.value) is str and 0 < len(node.value) <= 24:
                    strings.add(node.value)
    return sorted(ints), sorted(strings)


# ----------------------------------------------------------------- known findings


def known_findings():
    """KNOWN_FINDINGS.txt: 'finding: property=<id> key=<mechanism> <text>' suppresses one
    mechanism; 'fixed: ...' lines suppress nothing."""
    found = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                found[(m.group(1), m.group(2))] = m.group(3)
    return found


# ----------------------------------------------------------------- running a property


class Prop:
    """One property: `cases` yields JSON-serialisable cases, `judge` is the oracle."""

    id = None
    level = "exploration"
    rule = ""
    assumptions = ()
    #: labels that must be observed for the run to be conclusive
    required = ()
    #: minimum number of evaluations for a conclusive run
    min_evaluations = 50
    parallel = True
    hang_guard = True

    def cases(self, rng, tier, shard, nshards):
        raise NotImplementedError

    def judge(self, case, api):
        """Returns None, or a description of what was violated."""
        raise NotImplementedError

    def classify(self, case, message):
        """Mechanism key of a known finding this violation is an instance of, or None."""
        return None

    def nontrivial(self, case):
        return True

    def extra(self):
        return {}

    def parent_extra(self, tier, seed):
        return {}


def case_key(case):
    return hashlib.blake2b(
        json.dumps(case, ensure_ascii=True, sort_keys=True, default=str).encode(), digest_size=8
    ).digest()


MAX_VIOLATIONS = 3


def run_shard(prop, tier, seed, shard, nshards, deadline):
    rng = random.Random("%s/%s/%d/%d/%d" % (prop.id, tier, seed, shard, nshards))
    api = Api()
    cov = LineCoverage()
    if prop.hang_guard:
        signal.signal(signal.SIGALRM, _alarm)
        api.hang_guard = True
    evaluations = 0
    labels = {}
    seen = set()
    samples = []
    violations = []
    known = {}
    timed_out = False
    cov.start()
    try:
        for case in prop.cases(rng, tier, shard, nshards):
            if time.monotonic() > deadline:
                timed_out = True
                break
            message = prop.judge(case, api)
            evaluations += 1
            label = case.get("k", "case")
            labels[label] = labels.get(label, 0) + 1
            if prop.nontrivial(case):
                seen.add(case_key(case))
            if evaluations in (1, 7, 101, 1009) and len(samples) < 4:
                samples.append(case)
            if message is not None:
                key = prop.classify(case, message)
                if key is not None and (prop.id, key) in known_findings():
                    known[key] = message
                    continue
                violations.append({"case": case, "message": message})
                if len(violations) >= MAX_VIOLATIONS:
                    break
    finally:
        cov.stop()
    return {
        "evaluations": evaluations,
        "labels": labels,
        "seen": seen,
        "samples": samples,
        "violations": violations,
        "known": known,
        "timed_out": timed_out,
        "lines": cov.lines,
        "api": api.stats(),
        "extra": prop.extra(),
    }


def _child(prop, tier, seed, shard, nshards, deadline, path):
    try:
        result = run_shard(prop, tier, seed, shard, nshards, deadline)
    except BaseException:
        result = {"error": traceback.format_exc()}
    import pickle

    with open(path, "wb") as f:
        pickle.dump(result, f)


def _merge_counts(into, other):
    for k, v in other.items():
        if isinstance(v, dict):
            _merge_counts(into.setdefault(k, {}), v)
        elif isinstance(v, bool):
            into[k] = into.get(k, False) or v
        elif isinstance(v, (int, float)):
            if k.startswith("longest") or k.startswith("max"):
                into[k] = max(into.get(k, 0), v)
            else:
                into[k] = into.get(k, 0) + v
        elif isinstance(v, (set, frozenset)):
            into.setdefault(k, set()).update(v)
        elif isinstance(v, list):
            into.setdefault(k, []).extend(v)
        else:
            into[k] = v


def run(prop, tier, seed, nshards=None):
    start = time.monotonic()
    load()
    deadline = start + (600 if tier == "quick" else 6 * 3600)
    if nshards is None:
        nshards = max(1, min(8, os.cpu_count() or 1)) if prop.parallel else 1
    scratch = tempfile.mkdtemp(prefix="npv-")
    results = []
    if nshards == 1:
        results.append(run_shard(prop, tier, seed, 0, 1, deadline))
    else:
        import pickle

        pids = []
        for shard in range(nshards):
            path = os.path.join(scratch, "shard%d" % shard)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    _child(prop, tier, seed, shard, nshards, deadline, path)
                finally:
                    os._exit(0)
            pids.append((pid, path))
        for pid, path in pids:
            os.waitpid(pid, 0)
            if not os.path.exists(path):
                results.append({"error": "worker %d left no result" % pid})
            else:
                with open(path, "rb") as f:
                    results.append(pickle.load(f))
    import shutil

    shutil.rmtree(scratch, ignore_errors=True)

    errors = [r["error"] for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    labels, api, seen, lines, extra, known = {}, {}, set(), set(), {}, {}
    samples, violations = [], []
    evaluations = 0
    for r in good:
        evaluations += r["evaluations"]
        _merge_counts(labels, r["labels"])
        _merge_counts(api, r["api"])
        _merge_counts(extra, r["extra"])
        seen |= r["seen"]
        lines |= r["lines"]
        known.update(r["known"])
        samples.extend(r["samples"][:2])
        violations.extend(r["violations"])
    extra.update(prop.parent_extra(tier, seed))
    for k, v in list(extra.items()):
        if isinstance(v, (set, frozenset)):
            extra[k] = len(v)
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(seen),
        "rule": prop.rule,
        "samples": [shortened(x) for x in samples[:6]],
        "observed": {
            "calls": api,
            "case_classes": dict(sorted(labels.items())),
            "parser_lines_reached": len(lines),
            "workers": len(good),
            **extra,
        },
    }
    evidence = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": prop.level,
        "coverage": coverage,
        "assumptions": list(prop.assumptions),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(violations),
    }
    out_dir = os.environ.get("NPV_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(out_dir, exist_ok=True)
    with open(os.path.join(out_dir, prop.id + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, ensure_ascii=True, indent=1, default=str)
        f.write("\n")

    for key, message in sorted(known.items()):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop.id, key, message))
    for v in violations[:MAX_VIOLATIONS]:
        path = save_replay(prop, tier, seed, v)
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        print("  " + v["message"].replace("\n", "\n  ")[:1500])
    print(
        "%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d calls, %.1fs"
        % (prop.id, tier, seed, evaluations, len(seen), api.get("events", 0), evidence["wall_s"])
    )
    if violations:
        return EXIT_VIOLATED
    if errors:
        print("INCONCLUSIVE: the monitor failed\n" + errors[0])
        return EXIT_INCONCLUSIVE
    if any(r["timed_out"] for r in good):
        print("INCONCLUSIVE: ran out of time before the workload was complete")
        return EXIT_INCONCLUSIVE
    missing = [label for label in prop.required if not labels.get(label)]
    if missing or evaluations < prop.min_evaluations:
        print("INCONCLUSIVE: %d evaluations, never observed %s" % (evaluations, missing))
        return EXIT_INCONCLUSIVE
    return EXIT_HELD


def shortened(x, longest=300):
    """A case as the evidence shows it: long strings and lists are cut."""
    if isinstance(x, str):
        x = x.encode("utf-8", "backslashreplace").decode("utf-8")
        return x if len(x) <= longest else "%s... (%d characters)" % (x[:longest], len(x))
    if isinstance(x, dict):
        return {k: shortened(v, longest) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        out = [shortened(v, longest) for v in x[:12]]
        return out if len(x) <= 12 else out + ["... (%d items)" % len(x)]
    return x


def save_replay(prop, tier, seed, violation):
    out_dir = os.environ.get("NPV_REPLAYS", os.path.join(VERIF, "replays"))
    os.makedirs(out_dir, exist_ok=True)
    name = "%s-%s.json" % (prop.id, case_key(violation["case"]).hex())
    path = os.path.join(out_dir, name)
    with open(path, "w", encoding="utf-8") as f:
        json.dump(
            {"property": prop.id, "tier": tier, "seed": seed, **violation},
            f, ensure_ascii=True, indent=1, default=str,
        )
        f.write("\n")
    return path


def replay(prop, path):
    with open(path, encoding="utf-8") as f:
        saved = json.load(f)
    api = Api()
    signal.signal(signal.SIGALRM, _alarm)
    api.hang_guard = prop.hang_guard
    message = prop.judge(saved["case"], api)
    if message is None:
        print("replay of %s: the property held" % path)
        return EXIT_HELD
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    print("  " + message)
    return EXIT_VIOLATED
