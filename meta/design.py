#!/usr/bin/env python3
"""Regenerates DESIGN.md from design/*.md, props/*.json, the monitors and seeded/*/meta.json."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
out = [open(HERE + "/design/head.md").read().rstrip(), "", "## Properties", ""]
for p in sorted(glob.glob(HERE + "/props/*.json")):
    d = json.load(open(p))
    tree = ast.parse(open(f"{ROOT}/monitors/{d['id'].lower()}.py").read())
    val = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "KINDS"):
            try:
                val[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    kinds = ", ".join(f"{k} {a}/{b}" for k, (a, b) in val.get("KINDS", {}).items())
    out += [f"### {d['id']} {d['title']}", "", f"*Code:* {', '.join('`' + f + '`' for f in d["anchors"]["files"])}",
            f"*Decided by:* {d['technique']}.  ", f"*Workload and oracle:* {val.get('RULE', '')}  ",
            f"*Cases (quick/thorough):* {kinds}.  ", f"*Why tests cannot:* {d['why_tests_cant']}  ", f"*Limits:* {d['level_note']}"]
    note = f"{HERE}/design/{d['id']}.md"
    if os.path.exists(note):
        out += ["", open(note).read().rstrip()]
    out.append("")
out += [open(HERE + "/design/tail.md").read().rstrip(), "", "## Planted bugs", "",
        "All are caught by the quick check of their property (verified with `meta/seed.py verify`).", "", "| id | property | needs | breaks |", "|---|---|---|---|"]
for p in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(p))
    out.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + "\n")
