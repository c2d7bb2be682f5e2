#!/usr/bin/env python3
"""Writes DESIGN.md from the texts here, seeded/*/meta.json and tools/caught.txt."""
import json, os, glob, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(top + "/properties.jsonl")]
plan = {}
cur = None
for l in open(top + "/tools/design_plans.md"):
    m = re.match(r"## (C\d\d)", l)
    if m: cur = m.group(1); plan[cur] = ""; continue
    if cur: plan[cur] += l
rules = {}
for f in glob.glob(top + "/harness/*.go"):
    s = open(f).read()
    for m in re.finditer(r"func (c\d\d)\(c \*Ctx\) \{(.*?)\n}\n", s, re.S):
        r = re.search(r"c\.Rule\(`(.*?)`", m.group(2), re.S)
        if r: rules[m.group(1).upper()] = re.sub(r"\s+", " ", r.group(1)).strip()
out = [open(top + "/tools/design_head.md").read().rstrip(), "", "# Properties", ""]
for p in props:
    i = p["id"]
    out += [f"## {i} {p['title']}", "", "*Workload.* " + rules[i], "", plan[i].strip(), ""]
out += [open(top + "/tools/design_tail.md").read().rstrip(), "", "## Planted bugs and the checks that catch them", "",
        "Each is in `seeded/<id>/`; they were written with `tools/seeds/plant.py` (which confirms that they build, pass the stable tests,",
        "and that their demonstration tells them apart), and tried with `tools/seeds/try.py`. \"Also\": other checks that reported them", "when they were tried (not all were tried with every check).", "",
        "| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = {}
for l in open(top + "/tools/caught.txt"):
    if l.strip() and l[0] != "#":
        a = l.split(); caught[a[0]] = " ".join(a[1:])
for d in sorted(glob.glob(top + "/seeded/*/")):
    i = os.path.basename(d.rstrip("/"))
    m = json.load(open(d + "meta.json"))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, 'not tried')} |")
open(top + "/DESIGN.md", "w").write("\n".join(out) + "\n")
