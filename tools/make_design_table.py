#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/ and tools/seeded_results.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- table -->\n"


def main():
    with open(os.path.join(HERE, "tools", "seeded_results.json")) as f:
        results = json.load(f)
    rows = ["| planted bug | check | what it breaks | result |", "|---|---|---|---|"]
    for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", name, "meta.json")) as f:
            meta = json.load(f)
        rows.append(f"| {name} | {meta['property']} | {meta['what_it_breaks'].replace('|', '/')} | {results.get(name, '?').lower()} |")
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        head = f.read().split(MARK)[0]
    with open(path, "w") as f:
        f.write(head + MARK + "\n".join(rows) + "\n")


if __name__ == "__main__":
    main()
