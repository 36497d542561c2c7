#!/usr/bin/env python3
"""Puts the parts of DESIGN.md that are kept elsewhere (findings, planted bugs) into it."""
import json
import os
import re

here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "DESIGN.md")
with open(path) as f:
    text = f.read()
with open(os.path.join(here, "known_findings.json")) as f:
    findings = "\n".join("- " + e["what"] for e in json.load(f))
bugs = ["| change | property | what it breaks | needs | found by |", "|---|---|---|---|---|"]
seeded = os.path.join(here, "seeded")
catches = json.load(open(os.path.join(here, "catches.json"))) if os.path.exists(os.path.join(here, "catches.json")) else {}
for name in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
    with open(os.path.join(seeded, name, "meta.json")) as f:
        m = json.load(f)
    bugs.append(f"| {name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(catches.get(name, [])) or '?'} |")


def put(name, content):
    global text
    text = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m.group(1) + content + "\n" + m.group(2), text, flags=re.S)


put("findings", findings)
put("bugs", "\n".join(bugs))
with open(path, "w") as f:
    f.write(text)
