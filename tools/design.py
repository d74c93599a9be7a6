"""Fill the generated parts of DESIGN.md from DESIGN.in.md."""
import importlib, json, re, subprocess, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
src = (ROOT / "DESIGN.in.md").read_text()
props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
notes = {c["property"]: c["level_note"].split("no proof. ")[1] for c in json.load(open(ROOT / "MANIFEST.json"))["checks"]}
costs = json.loads((ROOT / "tools" / "costs.json").read_text()) if (ROOT / "tools" / "costs.json").exists() else {}
out = []
for p in props:
    mod = (ROOT / "pbt" / "props" / f"{p['id'].lower()}.py").read_text()
    camps = re.findall(r'Campaign\((?:"([^"]+)"|NAME),.*?, (\d+), (\d+)(?:, [\w.=]+)?\),?', mod)
    rule = re.search(r'^RULE = "(.+)"', mod, re.M)
    c = costs.get(p["id"], {})
    out.append(f"### {p['id']}  {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"* Generated: {p['quantifier']['text']}")
    out.append("* Campaigns (examples per stratum, quick/thorough): " + "; ".join(f"{a or 'space groups'} ({q}/{t})" for a, q, t in camps) + ".")
    out.append(f"* Oracle and bounds: {notes[p['id']]}")
    out.append(f"* {rule.group(1)[0].upper() + rule.group(1)[1:] if rule else ''}.")
    out.append(f"* Why tests cannot settle it: {p['why_tests_cant']}")
    if c:
        out.append(f"* Cost: quick {c['quick'][0]} cases in {c['quick'][1]} s" + (f", thorough {c['thorough'][0]} cases in {c['thorough'][1]} s" if "thorough" in c else "") + " (8 cores).")
    out.append("")
fixed = [e for e in json.load(open(ROOT / "known_findings.json"))["findings"] if e["status"] == "fixed"]
fx = "\n".join(f"* `{e['commit']}` {e['property']}: {e['what'].split(' ', 3)[3]}" for e in fixed)
sd = (ROOT / "tools" / "catches.md").read_text() if (ROOT / "tools" / "catches.md").exists() else "(none yet)"
(ROOT / "DESIGN.md").write_text(src.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@FIXED@@", fx).replace("@@SEEDED@@", sd))
