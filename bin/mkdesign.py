#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "bin", "bugnotes.json")))
rows = ["| bug | needs | breaks | caught by | |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    n = NOTES.get(d, "")
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {m['property']} | {n} |")
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
table = "\n".join(["<!-- bugs -->", *rows, "<!-- /bugs -->"])
text = text.replace("@@TABLE@@", table) if "@@TABLE@@" in text else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: table, text, flags=re.S)
open(path, "w").write(text)
