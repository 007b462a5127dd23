#!/usr/bin/env python3
"""Development tool: regenerates the generated sections of DESIGN.md from the checks' own text, the last evidence and the planted changes."""
import json, os, re, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
tech = {c["property"]: c["technique"] for c in man["checks"]}; na = {c["property"]: c["reason"] for c in man["not_applicable"]}
seeds = {}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s))); seeds.setdefault(m["property"], []).append((s, m))
out = []
for p in props:
    i = p["id"]; out.append("### %s %s\n" % (i, p["title"]))
    if i in na: out.append("Not applicable: %s.\n" % na[i]); continue
    src = open("%s/props/%s.py" % (V, i.lower())).read(); g = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("EXPLAIN", "ASSUME"):
            try: g[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
    out.append("*Method.* %s.\n" % tech[i])
    if "EXPLAIN" in g: out.append("*What is decided.* %s.\n" % re.sub(r"\s+", " ", g["EXPLAIN"]).strip().rstrip("."))
    if g.get("ASSUME"): out.append("*Bounds and assumptions.* %s.\n" % "; ".join(a.rstrip(".") for a in g["ASSUME"]))
    try:
        e = json.load(open("%s/evidence/%s.json" % (V, i))); c = e["coverage"]
        q = [("%d " % c[k]) + n for k, n in (("cases", "cases"), ("obligations", "obligations"), ("undecided", "undecided")) if isinstance(c.get(k), int)]
        out.append("*Size (quick tier).* %s; about %d s on 8 cores.\n" % (", ".join(q), round(e["wall_s"] + .5)))
    except Exception: pass
    if i in seeds: out.append("*Planted changes caught.* %s.\n" % ", ".join("`%s`" % s for s, _ in seeds[i]))
gen = "\n".join(out)
tab = ["| planted change | what it breaks | what it needs to show |", "|---|---|---|"]
cell = lambda x: re.sub(r"\s+", " ", x).replace("|", "/")
for p in sorted(seeds):
    for s, m in seeds[p]: tab.append("| %s | %s | %s |" % (s, cell(m["what_it_breaks"]), cell(m["needs"])))
d = open(V + "/DESIGN.md").read()
for tag, txt in (("properties", gen), ("seeds", "\n".join(tab))):
    b, e = "<!-- %s:begin -->" % tag, "<!-- %s:end -->" % tag
    d = d[:d.index(b) + len(b)] + "\n" + txt + "\n" + d[d.index(e):]
open(V + "/DESIGN.md", "w").write(d)
