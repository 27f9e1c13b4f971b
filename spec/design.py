#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (per-property table) from props.py and spec/properties.py."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), str(V / "spec")]
from props import PROPS
from properties import P
o = []
for p in P:
    q = PROPS.get(p["id"])
    if not q: continue
    o.append(f"### {p['id']} {p['title']}\n\nHarnesses (`harness/src/{p['id'].lower()}.rs`), each deciding all values within its bounds:\n")
    for g in q["groups"]:
        c = g.get("caps", {})
        for h, d in g["harnesses"].items(): o.append(f"- `{h}`: {d}")
        if c: o.append(f"- (capacities: {', '.join(f'{k} {v}' for k, v in c.items())})")
    o.append(f"\nOutside the bounds: {q['outside']}.\n")
t = (V / "DESIGN.md").read_text()
a, b = "<!-- generated by spec/design.py -->\n", "<!-- end of generated part -->"
i, j = t.index(a) + len(a), t.index(b)
(V / "DESIGN.md").write_text(t[:i] + "\n".join(o) + "\n" + t[j:])
