#!/usr/bin/env python3
"""Brings DESIGN.md's Enumerated and Bounds lines in step with the harnesses."""
import json, re

p = "/verif/DESIGN.md"
out, cur = [], None
for line in open(p):
    m = re.match(r"### (C\d\d) ", line)
    if m:
        cur = m.group(1)
    elif line.startswith("## ") or line.startswith("### "):
        cur = None
    if cur and line.startswith("*Enumerated:*"):
        src = open(f"/verif/h/cmd/{cur.lower()}/main.go").read()
        r = re.search(r"\bRule: +(\"(?:[^\"\\\\]|\\\\.)*\")", src)
        line = "*Enumerated:* " + json.loads(r.group(1)).rstrip(".") + ".\n"
    elif cur and line.startswith("*Bounds:*"):
        c = open(f"/verif/h/cmd/{cur.lower()}/CLAIM").read()
        line = "*Bounds:* " + re.search(r"^note: *(.*)", c, re.M).group(1) + "\n"
    out.append(line)
open(p, "w").write("".join(out))
