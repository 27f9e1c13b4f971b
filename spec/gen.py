#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/properties.py and props.py."""
import json, pathlib, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), str(V / "spec")]
from props import PROPS
from properties import P, NA
rows, checks, na = [], [], []
for p in P:
    if p["id"] not in PROPS and p["id"] not in NA: continue
    rows.append(p)
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]}); continue
    q = PROPS[p["id"]]
    b = "; ".join(f"{h}: {d}" for g in q["groups"] for h, d in g["harnesses"].items())
    checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}", "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
        "technique": q["technique"], "level": "other",
        "level_note": "Solver verdict over all values within the stated bounds, unwinding assertions on, reachability witnesses required; a counterexample is replayed natively before it is reported. Bounds: " + b + ". Outside: " + q["outside"] + ". Trusted: " + "; ".join(q["assumptions"]) + "; Kani's translation of MIR and CBMC."})
(V / "properties.jsonl").write_text("".join(json.dumps(r) + "\n" for r in rows))
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
old = json.load(open(V / "MANIFEST.json")) if (V / "MANIFEST.json").exists() else {}
if not commits: commits = old.get("hooks", {}).get("source_commits", [])
m = {"version": 1, "setup_cmd": "python3 hooks/gen.py && python3 harness/gen.py",
     "hooks": {"guard": "cfg(lightyear_verif)", "enable": "RUSTFLAGS='--cfg lightyear_verif' and LIGHTYEAR_VERIF_HOOKS=/verif/hooks/<set> (the hook modules include! files from that directory)", "source_commits": commits},
     "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(rows), "properties", len(checks), "checks", len(na), "not applicable")
