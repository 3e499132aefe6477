"""Regenerates DESIGN.md from tools/design.md, proved.json, the evidence files of the last runs and known_findings.json."""
import json, pathlib, re
R = pathlib.Path(__file__).resolve().parent.parent
t = (R / "tools" / "design.md").read_text()
rows = ["| id | property | contracts proved for all sizes | proved for literal structure, all other sizes | bounded (concrete instances only) | VCs | functions under contract |", "|---|---|---|---|---|---|---|"]
for l in open(R / "properties.jsonl"):
    p = json.loads(l)
    f = R / "evidence" / (p["id"] + ".json")
    if not f.exists():
        continue
    c = json.loads(f.read_text())["coverage"]
    j = lambda k: ", ".join(c[k]) or "-"
    rows.append(f"| {p['id']} | {p['title']} | {j('harnesses_proved_all_sizes')} | {j('harnesses_proved_some_literal_sizes')} | {j('harnesses_bounded')} | {c['discharged']}/{c['obligations']} | {len(c['functions_under_contract'])} |")
k = json.loads((R / "known_findings.json").read_text())
fixed = "\n".join(f"* {x['commit']} ({x['property']}) {x['what'].split(' ', 3)[3]}" for x in k if x["status"] == "fixed")
opn = "\n".join(f"* {x['property']} `{x['id']}` ({x['harness']} / {x['obligation']}): {x['what']}" for x in k if x["status"] == "open")
sd = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.loads((R / "tools" / "caught.json").read_text()) if (R / "tools" / "caught.json").exists() else {}
for d in sorted((R / "seeded").glob("*")):
    m = json.loads((d / "meta.json").read_text())
    sd.append(f"| {d.name} | {m['property']} | {m['needs']} | {caught.get(d.name, '?')} |")
for a, b in (("TABLE", "\n".join(rows)), ("FIXED", fixed), ("OPEN", opn), ("SEEDED", "\n".join(sd))):
    t = t.replace(f"@@{a}@@", b)
(R / "DESIGN.md").write_text(t)
