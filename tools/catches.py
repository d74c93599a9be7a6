"""Which checks catch which planted bugs: runs tools/try_bug.sh, keeps tools/catches.json, writes tools/catches.md.

catches.py [run]     (development tool, not a check)
"""
import json, os, re, subprocess, sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
STORE = ROOT / "tools" / "catches.json"
RELATED = {
    "irreps.py": ["P02", "P05", "P18"],
    "group.py": ["P02", "P16", "P22"],
    "core.py": ["P06", "P13"],
    "corep.py": ["P14", "P15"],
    "spinor.py": ["P10", "P12"],
    "representation.py": ["P17", "P19", "P26"],
    "tensor.py": ["P20", "P21"],
    "transform.py": ["P06", "P25"],
    "utils.py": ["P17", "P27"],
    "pointgroup.py": ["P05", "P23"],
}


def main():
    done = json.loads(STORE.read_text()) if STORE.exists() else {}
    for d in sorted((ROOT / "seeded").iterdir()):
        meta = json.loads((d / "meta.json").read_text())
        files = sorted(set(re.findall(r"^\+\+\+ b/src/spgrep/(\S+)", (d / "patch.diff").read_text(), re.M)))
        want = [meta["property"]] + sorted({p for f in files for p in RELATED[f]} - {meta["property"]})
        got = done.setdefault(d.name, {})
        if sys.argv[1:] == ["run"]:
            todo = [p for p in want if p not in got]
            if todo:
                out = subprocess.run([ROOT / "tools" / "try_bug.sh", d, *todo], capture_output=True, text=True, env={**os.environ, "TESTS": "0"}).stdout
                for p, rc in re.findall(r"(P\d\d) rc=(\d+)", out):
                    got[p] = int(rc)
                STORE.write_text(json.dumps(done, indent=0, sort_keys=True) + "\n")
    lines = ["| Planted bug | What it breaks | Needs | Caught by | Tried, not caught by |", "|---|---|---|---|---|"]
    for d in sorted((ROOT / "seeded").iterdir()):
        meta, got = json.loads((d / "meta.json").read_text()), done.get(d.name, {})
        own = meta["property"]
        yes = sorted(p for p, r in got.items() if r == 1)
        no = sorted(p for p, r in got.items() if r == 0)
        mark = ", ".join(f"**{p}**" if p == own else p for p in yes)
        lines.append(f"| {d.name} | {meta['what_it_breaks']} | {meta['needs']} | {mark} | {', '.join(no)} |")
    (ROOT / "tools" / "catches.md").write_text("\n".join(lines) + "\n")


main()
