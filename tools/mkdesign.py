#!/usr/bin/env python3
"""Development tool: fills in the tables of DESIGN.md from seeded/ and, if given, results of mutate.py."""
import json, glob, os, re, sys, collections
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
t = open("DESIGN.md").read()
rows = collections.defaultdict(list)
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m)); rows[d["property"]].append(f"{m.split('/')[1]} ({d['needs'].strip().rstrip('.')})")
s = "| caught by | planted bug (what it needs to show) |\n|---|---|\n" + "".join(f"| {p} | {'; '.join(b)} |\n" for p, b in sorted(rows.items())).replace("\\", "/")
t = re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)", lambda m: m[1] + s + m[2], t, flags=re.S)
if len(sys.argv) > 1:
    r = [json.loads(l) for l in open(sys.argv[1])]; c = collections.Counter(); by = collections.Counter()
    for d in r:
        w = d["what"]; k = "nobuild" if w == "nobuild" else "tests" if w == "tests" else "left" if w == "LEFT" else "broken" if w.startswith("BROKEN") else "caught"
        c[k] += 1
        if k == "caught": by[w.split()[0]] += 1
    s = f"`tools/mutate.py` made {len(r)} one-line changes: {c['nobuild']} do not compile, {c['tests']} fail the stable tests (or hang them), {c['caught']} are caught by a check, {c['left']} are not, {c['broken']} made a check end without an answer.\nFirst to fire: " + ", ".join(f"{k} {n}" for k, n in sorted(by.items())) + ".\n"
    t = re.sub(r"(<!-- mutants -->\n).*?(<!-- /mutants -->)", lambda m: m[1] + s + m[2], t, flags=re.S)
open("DESIGN.md", "w").write(t)
