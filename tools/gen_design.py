#!/usr/bin/env python3
"""Writes DESIGN.md: the text of tools/design.md with the tables made from properties.jsonl, the
harnesses' config.json, known_findings.txt and seeded/*/meta.json."""
import json, os, re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(root + "/tools/design.md").read()
how = {}
for part in re.split(r"\n(?=@@P\d\d\n)", open(root + "/tools/design_properties.md").read()):
    if part.startswith("@@"):
        k, t = part[2:].split("\n", 1)
        how[k] = t.strip()


def props():
    out = []
    for l in open(root + "/properties.jsonl"):
        p = json.loads(l)
        c = json.load(open(f"{root}/harness/{p['id'].lower()}/config.json"))
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(how[p["id"]] + "\n")
        for h, d in c["harnesses"].items():
            out.append(f"- `{h}`: {d['bounds']}.")
        if c.get("assumptions"):
            out.append("\nAssumed: " + "; ".join(c["assumptions"]) + ".")
        out.append("")
    return "\n".join(out)


def seeded():
    out = ["| Change | Property | Needs | Caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir(root + "/seeded")):
        m = json.load(open(f"{root}/seeded/{d}/meta.json"))
        out.append(f"| {d} | {m['property']} | {m['needs']} | {m['property']} |")
    return "\n".join(out)


def findings():
    out = []
    for l in open(root + "/known_findings.txt"):
        l = l.strip()
        if l and not l.startswith("#"):
            out.append("- " + l)
    return "\n".join(out)


for k, f in (("PROPERTIES", props), ("SEEDED", seeded), ("FINDINGS", findings)):
    text = text.replace("@@" + k, f())
open(root + "/DESIGN.md", "w").write(text)
