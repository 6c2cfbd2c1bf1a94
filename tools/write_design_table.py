#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted bugs -->"


def main():
    rows = []
    for bug in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        meta = json.load(open(os.path.join(HERE, "seeded", bug, "meta.json"), encoding="utf-8"))
        rows.append((meta["property"], bug, meta["what_it_breaks"], meta["needs"]))
    rows.sort()
    out = ["| caught by | planted bug | what it breaks | needs |", "|---|---|---|---|"]
    out += ["| %s | %s | %s | %s |" % tuple(x.replace("|", "\\|").replace("\n", " ") for x in r) for r in rows]
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path, encoding="utf-8").read().split(MARK)[0]
    with open(path, "w", encoding="utf-8") as f:
        f.write(text + MARK + "\n\n" + "\n".join(out) + "\n")


if __name__ == "__main__":
    main()
