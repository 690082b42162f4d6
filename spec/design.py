#!/usr/bin/env python3
"""DESIGN.md = spec/design_head.md + one section per property (spec/props.py, the targets and
assumptions declared in props/*.cpp, KNOWN_FINDINGS, seeded/*/meta.json, spec/seed_results.txt) + spec/design_tail.md."""
import json, os, re, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P

def targets(src):
    mac = dict(re.findall(r'^#define (\w+) ("(?:[^"\\]|\\.)*")\s*$', src, re.M))
    out = []
    for m in re.finditer(r'^\s*TARGETF?\((\w+),\s*[^,]+,\s*((?:"(?:[^"\\]|\\.)*"|[A-Z_]+|\s)+)\s*(,\s*pbt::[^)]*)?\)\s*\{', src, re.M):
        rule = "".join(x[1:-1] for x in re.findall(r'"(?:[^"\\]|\\.)*"', re.sub(r'\b[A-Z_]+\b(?=(?:[^"]*"[^"]*")*[^"]*$)', lambda k: mac.get(k.group(0), ""), m.group(2))))
        out.append((m.group(1), rule.replace('\\"', '"'), (m.group(3) or "").strip(", ")))
    return out

known = {}
for l in open(os.path.join(root, "KNOWN_FINDINGS")):
    m = re.match(r"(known|fixed): property=(C\d+) (.*)", l)
    if m: known.setdefault(m.group(2), []).append((m.group(1), m.group(3).strip()))
seeds = {}
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    j = json.load(open(d)); seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(d)), j))
res = {}
try:
    for l in open(os.path.join(here, "seed_results.txt")):
        k, v = l.split(None, 1); res[k] = v.strip()
except FileNotFoundError: pass

o = open(os.path.join(here, "design_head.md")).read().rstrip() + "\n\n## The properties, one by one\n\n"
for p in P:
    f = os.path.join(root, "props", p["id"] + ".cpp")
    src = open(f, encoding="latin-1").read() if os.path.exists(f) else ""
    o += f"### {p['id']} — {p['title']}\n\n"
    o += f"*Over*: {p['text']}. *Deciding method*: {p['technique']}. {p['note']}\n\n"
    o += f"*Why tests cannot settle it*: {p['why']}\n\n"
    o += "Code under test: " + ", ".join(f"`{x}`" for x in dict.fromkeys(p["files"])) + ".\n\n"
    t = targets(src); n = len(re.findall(r'^\s*TARGETF?\(\w+,', src, re.M)) 
    if len(t) != n: print("targets not parsed:", p["id"], len(t), n)
    for name, rule, flag in t:
        o += f"- `{name}`: {rule}" + (" (not deterministic: threads)" if "NONDET" in flag else "") + (" (one long case)" if "ONCE" in flag else "") + "\n"
    q = re.findall(r"^//@ quick: (\S+)", src, re.M)
    v = re.findall(r"^//@ variant: (\S+)", src, re.M)
    o += f"\nBudget: {q[0] if q else '20'} s of search quick on 8 workers, thorough several minutes" + (f"; builds: {', '.join(dict.fromkeys(v))}" if v else "; build: asan") + ".\n"
    for x in re.findall(r"^//@ assume: (.*)$", src, re.M): o += f"Assumed: {x}.\n"
    k = known.get(p["id"], [])
    fx = [y for x, y in k if x == "fixed"]
    if fx:
        o += f"\nDefects found by this check and repaired ({len(fx)}):\n\n"
        for y in fx: o += f"- {y}\n"
    for x, y in k:
        if x == "known": o += f"\n**Known finding, not repaired**: {y}\n"
    if p["id"] in seeds:
        o += "\nPlanted bugs:\n\n"
        for sid, j in seeds[p["id"]]:
            o += f"- `{sid}` ({res.get(sid, 'not run yet')}): {j['what_it_breaks']}; needs {j['needs']}\n"
    o += "\n"
t = os.path.join(here, "design_tail.md")
if os.path.exists(t): o += open(t).read()
open(os.path.join(root, "DESIGN.md"), "w").write(o)
print(len(o.splitlines()), "lines")
