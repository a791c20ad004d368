#!/usr/bin/env python3
"""Rewrite the table of the planted bugs in DESIGN.md (section 6) from seeded/*/meta.json.

A meta.json may have "missed": how the check was strengthened after it missed the bug at first.
"""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "planted_notes.json")))


def main():
    rows = []
    for meta in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        data = json.load(open(meta))
        name = os.path.basename(os.path.dirname(meta))
        rows.append("| %s | %s | %s | %s |" % (name, data["property"], data["what_it_breaks"], NOTES.get(name, "")))
    table = "\n".join(["| planted bug | caught by | what it breaks | missed at first: what was added |",
                       "| --- | --- | --- | --- |"] + rows)
    path = os.path.join(ROOT, "DESIGN.md")
    text = open(path).read()
    begin, end = "<!-- planted -->\n", "<!-- /planted -->\n"
    text = re.sub(re.escape(begin) + ".*?" + re.escape(end), lambda m: begin + table + "\n" + end, text, flags=re.S)
    open(path, "w").write(text)
    print("%d planted bugs" % len(rows))


if __name__ == "__main__":
    main()
