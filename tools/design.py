#!/usr/bin/env python3
# design.py: fills the generated parts of DESIGN.md (from tools/DESIGN.in.md): scenarios, assumptions, catch table
import re, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(V+"/properties.jsonl")}
S = r'((?:"(?:[^"\\]|\\.)*"\s*)+)'
def txt(s): return "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', s)).replace('\\"', '"').replace("|", "\\|")
out = []
for i, p in props.items():
    s = open(f"{V}/harness/{i}.cpp").read()
    ev = {}
    try: e = json.load(open(f"{V}/evidence/{i}.json")); ev = {x["name"]: x for x in e["coverage"]["scenarios"]} if e["tier"] == "quick" else {}
    except OSError: pass
    old = {}
    out.append(f"### {i}: {p['title']}\n")
    for m in re.finditer(r'MC_SCENARIO(_T)?\(\s*(\w+)\s*,\s*'+S+r'(?:,\s*([^)]*))?', s):
        x = ev.get(m.group(2)); n = f" *({x['executions']} / {x['transitions']} / {x['wall_s']:.1f} s)*" if x else " *(thorough only)*" if m.group(1) else ""
        out.append(f"* `{m.group(2)}`: {txt(m.group(3))}{n}")
    a = re.search(r'assumptions\[\]\s*=\s*\{(.*?)nullptr', s, re.S)
    if a:
        for t in re.findall(S+r',', a.group(1)): out.append(f"* assumption: {txt(t)}")
    out.append("")
known = open(V+"/known_findings.txt").read()
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V+"/tools/caught.json"))
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m = json.load(open(d)); n = d.split("/")[-2]
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, 'not yet run')} |")
t = open(V+"/tools/DESIGN.in.md").read()
t = t.replace("@@SCEN@@", "\n".join(out)).replace("@@CATCH@@", "\n".join(rows)).replace("@@FIXED@@", str(len(re.findall(r"^fixed: ", known, re.M))))
open(V+"/DESIGN.md", "w").write(t)
