#!/usr/bin/env python3
"""try_seeded.py [--all-checks] [--checks C01,C02] [ids...]: for each planted bug, in a scratch
copy of the repository: demo on the clean tree, the repository's tests, demo and checks with the patch."""

import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEEDED = os.path.join(HERE, "seeded")


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    return p.returncode, p.stdout


def one(bug, checks, seeded):
    meta = json.load(open(os.path.join(seeded, bug, "meta.json")))
    root = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(root, "repo")
        shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns("__pycache__"))
        demo = ["bash", os.path.join(seeded, bug, "demo.sh")]
        row = {"bug": bug, "property": meta["property"]}
        row["clean demo"] = sh(demo, copy)[0]
        code, out = sh(["git", "apply", os.path.join(seeded, bug, "patch.diff")], copy)
        if code:
            row["error"] = out
            return row
        code, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules",
                        "number_parser", "tests", "README.rst"], copy)
        row["tests"] = out.strip().split("\n")[-1]
        row["patched demo"] = sh(demo, copy)[0]
        results = {}
        for c in checks or [meta["property"]]:
            code, out = sh([PY, "check.py", c], HERE, {
                "NPV_REPO": copy, "NPV_EVIDENCE": os.path.join(root, "e"),
                "NPV_REPLAYS": os.path.join(root, "r"), "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            results[c] = code
            if code == 1 and c == meta["property"]:
                row["witness"] = "\n".join(out.split("\n")[1:2])[:300]
            elif code not in (0, 1):
                row["witness"] = out[-600:]
        row["checks"] = results
        return row
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    args = sys.argv[1:]
    checks = None
    if "--all-checks" in args:
        args.remove("--all-checks")
        checks = ["C%02d" % i for i in range(1, 26)]
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    seeded = SEEDED
    if "--dir" in args:
        i = args.index("--dir")
        seeded = args[i + 1]
        del args[i:i + 2]
    bugs = args or sorted(os.listdir(seeded))
    with cf.ThreadPoolExecutor(2) as ex:
        for row in ex.map(lambda b: one(b, checks, seeded), bugs):
            got = row.get("checks", {})
            ok = row.get("clean demo") == 0 and row.get("patched demo") not in (0, None) and \
                " passed" in row.get("tests", "") and "failed" not in row.get("tests", "")
            print("%-28s %s valid=%s caught=%s by=%s | tests: %s demo %s/%s | %s" % (
                row["bug"], row["property"], ok, got.get(row["property"]) == 1,
                ",".join(c for c in got if got[c] == 1) + " odd:" + ",".join(
                    c for c in got if got[c] not in (0, 1)), row.get("tests"),
                row.get("clean demo"), row.get("patched demo"), row.get("error") or row.get("witness")),
                flush=True)


if __name__ == "__main__":
    main()
