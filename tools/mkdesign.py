"""Writes DESIGN.md from the pieces below (hand-written) plus the lists of properties, known findings, mutants and planted bugs."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
kf = json.load(open(os.path.join(V, "KNOWN_FINDINGS.json")))["findings"]
na = {x.get("property", x.get("property")): x["reason"] for x in man["not_applicable"]}
claimed = {x.get("property") for x in man["checks"]}
exec(open(os.path.join(V, "tools/design_text.py")).read())
mut = {}
for l in open(os.path.join(V, "tools/mutants.txt")):
    if l.startswith("### "):
        i, ps, _ = l[4:].split(" ", 2)
        for p in ps.split(","):
            mut.setdefault(p, [0, 0])[1 if i.endswith("=") else 0] += 1
seeds = {}
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
o = [HEAD]
o.append("## Properties\n")
for p in props:
    i = p["id"]
    o.append(f"### {i}: {p['title']}\n")
    if i in claimed:
        o.append(DECIDE[i].strip() + "\n")
        a, b = mut.get(i, [0, 0])
        s = f"Mutants in tools/mutants.txt: {a} breaking (caught), {b} behaviour-keeping (quiet)." if a or b else ""
        if i in seeds:
            s += " Planted bugs: " + "; ".join(f"`{n}` ({'caught' if m.get('caught', True) else 'not caught'})" for n, m in seeds[i]) + "."
        if s:
            o.append(s.strip() + "\n")
    else:
        o.append("Not claimed: " + na[i] + ".\n")
o.append("## Repairs of genuine defects (\"fix:\" commits in /repo)\n")
for x in kf:
    if x["status"] == "fixed":
        w = re.sub(r"^fixed: property=\S+ \S+ ", "", x["what"])
        o.append(f"- {x['commit']} ({x['property']}): {w}")
o.append(OTHERFIX)
o.append("## Known findings (not repaired)\n")
for x in kf:
    if x["status"] == "known":
        o.append(f"- {x['property']} `{x['key']}`: {x['what']}")
o.append("\n" + TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
