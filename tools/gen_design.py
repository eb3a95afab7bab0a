#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design and the descriptions of the planted bugs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(HERE, "tools", "design")


def text(name):
    with open(os.path.join(D, name)) as f:
        return f.read()


out = [text("head.md"), "| id | S | E | O | W | cost |\n|---|---|---|---|---|---|\n"]
out += ["| " + " | ".join(r) + " |\n" for r in json.loads(text("rows.json"))]
out.append(text("tail.md"))
strong = json.loads(text("strengthened.json"))
out.append("| planted bug | what it breaks | strengthened |\n|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", ""))):
    i = os.path.basename(d[:-1])
    with open(d + "meta.json") as f:
        m = json.load(f)
    out.append("| %s%s | %s | %s |\n" % (i, " \u2731" if i in strong else "", m["what_it_breaks"].replace("|", "/"),
                                        strong.get(i, "")))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("".join(out))
