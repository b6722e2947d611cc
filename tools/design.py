"""Bring the generated parts of DESIGN.md up to date: cases, planted bugs."""

import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PATH = os.path.join(ROOT, "DESIGN.md")


def cases(prop):
    units = importlib.import_module(f"vmon.checks.{prop.lower()}").UNITS
    return "; ".join(
        f"{name} {quick} / {deep}" for name, (_, quick, deep) in units.items()
    )


def table():
    top = os.path.join(ROOT, "seeded")
    rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    for name in sorted(os.listdir(top)):
        with open(os.path.join(top, name, "meta.json"), encoding="utf-8") as src:
            meta = json.load(src)
        also = ", ".join([meta["property"]] + CAUGHT.get(name, []))
        rows.append(
            f"| {name} | {meta['property']} | {meta['needs']} | {also} |"
        )
    return "\n".join(rows)


CAUGHT = {}


def main():
    with open(PATH, encoding="utf-8") as src:
        text = src.read()
    prop = None
    out = []
    for line in text.split("\n"):
        match = re.match(r"### (C\d\d) ", line)
        if match:
            prop = match[1]
        cost = re.match(r"\*Cases:\*.*?(about \d+ s)?\.?$", line)
        if cost:
            line = f"*Cases (quick / thorough):* {cases(prop)}."
        elif line.startswith("*Cases (quick"):
            line = f"*Cases (quick / thorough):* {cases(prop)}."
        out.append(line)
    text = "\n".join(out)
    mark = "<!-- planted bugs -->"
    text = text.replace("SEEDTABLE", mark)
    text = text[: text.index(mark)] + mark + "\n\n" + table() + "\n"
    with open(PATH, "w", encoding="utf-8") as dst:
        dst.write(text)


main()
