#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
by = {}
for d in sorted(os.listdir(root + "/seeded")):
    by.setdefault(json.load(open(f"{root}/seeded/{d}/meta.json"))["property"], []).append(d)
t = "| property | planted bugs (caught by this property's check) |\n|---|---|\n" + "".join(f"| {k} | {', '.join(v)} |\n" for k, v in sorted(by.items()))
s = open(root + "/DESIGN.md").read()
s = re.sub(r"\| property \| planted bugs.*?\n(?!\|)", lambda m: t, s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
