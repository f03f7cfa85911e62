#!/usr/bin/env python3
"""Write DESIGN.md from its parts, the harness's part sizes and the list of planted bugs."""
import glob, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from design_props import D
read = lambda *p: open(os.path.join(root, *p)).read()
src = "\n".join(read(f) for f in sorted(glob.glob(os.path.join(root, "harness/src/p_*.rs"))))
parts = {}
for m in re.finditer(r'Property\s*\{\s*id:\s*"(C\d+)"(.*?)required', src, re.S):
    parts[m.group(1)] = re.findall(r'part\("(\w+)",\s*(\d+),\s*(\d+)', m.group(2))
cost = json.loads(read("tools", "cost.json"))
out = read("tools", "design_head.md")
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    i = p["id"]
    g, o, b = D[i]
    out += f"### {i} {p['title']}\n\n**G** {g}\n**O** {o}\n**B** {b}\n\n"
    out += "[" + "; ".join(f"{n} {q}/{t}" for n, q, t in parts[i]) + f"; quick about {cost.get(i, '?')} s]\n\n"
out += read("tools", "design_tail.md")
caught = json.loads(read("tools", "caught.json"))
out += "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    out += f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '')} |\n"
open(os.path.join(root, "DESIGN.md"), "w").write(out)
