#!/usr/bin/env python3
"""writes DESIGN.md"""
import json, os, re, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, "tools"))
from specs import SPECS, INFO, NOT_APPLICABLE
from design_props import ORACLE, FALSE
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
mc = {}
for f in sorted(glob.glob(H + "/harness/*.cpp")):
    s = open(f).read()
    for m in re.finditer(r'MC_PROPERTY\(\s*"(\w+)"\s*,\s*"(\w+)"\s*,((?:\s*"(?:[^"\\]|\\.)*"\s*,?)+)\)', s):
        parts = []
        body = m.group(3)
        # adjacent literals separated by commas
        cur, last = None, 0
        for t in re.finditer(r'"((?:[^"\\]|\\.)*)"\s*(,?)', body):
            cur = (cur or "") + t.group(1)
            if t.group(2):
                parts.append(cur); cur = None
        if cur: parts.append(cur)
        mc[m.group(1)] = parts
for f in sorted(glob.glob(H + "/py/Y*.py")):
    sys.path.insert(0, H + "/py"); import importlib, pymc
    importlib.import_module(os.path.basename(f)[:-3])
    for i, P in pymc.PROPS.items(): mc[i] = [P["rule"], P["bound"]] + P["assumptions"]
kf = {}
for l in open(H + "/known_findings.txt"):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: kf.setdefault(m.group(1), []).append("repaired in `%s`: %s" % (m.group(2), m.group(3)))
    m = re.match(r'KNOWN-FINDING: property=(\w+) key=(\S+) (.*)', l)
    if m: kf.setdefault(m.group(1), []).append("**recorded, not repaired** (`%s`): %s" % (m.group(2), m.group(3)))
seeds = {}
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(d)); seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(d)), j))
out = [open(H + "/tools/design_head.md").read().replace("@FALSE@", "\n".join("* " + x for x in FALSE))]
for p in props:
    i = p["id"]
    out.append("\n### %s — %s\n" % (i, p["title"]))
    if i not in SPECS:
        out.append("Not claimed: " + NOT_APPLICABLE.get(i, "no check built yet") + "\n"); continue
    rule = mc.get(i, ["?", "?"])
    o, cost, why = ORACLE[i]
    out.append("* **Code:** " + ", ".join("`%s`" % f for f in p["anchors"]["files"] if True) if "anchors" in p else "")
    out.append("* **Enumerated:** " + rule[0])
    out.append("* **Bound:** " + (rule[1] if len(rule) > 1 else ""))
    out.append("* **Oracle:** " + o)
    if len(rule) > 2: out.append("* **Assumes:** " + "; ".join(rule[2:]))
    out.append("* **Cost (quick):** " + cost)
    out.append("* **Beyond tests:** " + why)
    for k in kf.get(i, []): out.append("* **Found:** " + k)
    for n, j in seeds.get(i, []): out.append("* **Planted** `%s` (caught by %s): needs %s; %s" % (n, i, j["needs"], j["what_it_breaks"]))
open(H + "/DESIGN.md", "w").write("\n".join(x for x in out if x) + "\n")
missing = [i for i in SPECS if i not in mc]
print("sections", len(props), "missing texts", missing)
