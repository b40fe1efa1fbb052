#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, the properties, the claims, the last evidence and the planted bugs."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(here, p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
claims = json.loads(rd("tools/claims.json"))
fixed = [l for l in rd("known_findings.txt").splitlines() if l.startswith("fixed:")]
out = []
for p in props:
    c = claims[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    if "technique" in c:
        out.append(f"* Explored: {c['technique']}")
    else:
        out.append(f"* Explored: {c['what']}")
        out.append(f"* Oracle: {c['oracle']}")
    if c.get("note"):
        out.append(f"* Limits: {c['note']}")
    out.append(f"* Beyond tests: {p['why_tests_cant']}")
    try:
        e = json.loads(rd(f"evidence/{p['id']}.json"))
        cov = e.get("coverage", e)
        f = {k: cov[k] for k in ("states", "transitions", "traces", "schedules") if isinstance(cov.get(k), int)}
        if f:
            out.append("* Last quick run: " + ", ".join(f"{v:,} {k}" for k, v in f.items()) + (f", {e['wall_s']:.0f} s" if "wall_s" in e else ""))
    except OSError:
        pass
    n = [l for l in fixed if f"property={p['id']} " in l]
    if n:
        out.append(f"* Genuine defects repaired: {len(n)}")
    out.append("")
t = rd("tools/design.in.md")
t = t.replace("@PROPS@", "\n".join(x for i, x in enumerate(out) if x or out[i - 1]))
t = t.replace("@C23ROW@", "| every short program of Python operations over a set of operands, run by CPython workers and by the Rust interface | C23 |")
t = t.replace("@NFIX@", str(len(fixed)))
rows = ["| planted bug | property | needs | what it breaks | outcome |", "|---|---|---|---|---|"]
notes = json.loads(rd("tools/seednotes.json")) if os.path.exists(os.path.join(here, "tools/seednotes.json")) else {}
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    k = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append(f"| {k} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {notes.get(k, 'caught')} |")
t = t.replace("@SEEDS@", "\n".join(rows))
open(os.path.join(here, "DESIGN.md"), "w").write(t)
