#!/usr/bin/env python3
"""Writes ../MANIFEST.json from ../props.toml and ../properties.jsonl."""
import json, os, tomllib
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
with open(os.path.join(D, "props.toml"), "rb") as f:
    table = tomllib.load(f)
with open(os.path.join(D, "not_applicable.toml"), "rb") as f:
    na = tomllib.load(f)
checks, not_applicable = [], []
for p in props:
    t = table.get(p["id"])
    if t:
        checks.append(dict(
            property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']}",
            technique=t.get("technique", "contracts on the real functions, discharged by Kani (CBMC, SAT)"),
            level=t.get("level", "proof"), level_note=" ".join(t["note"].split())))
    else:
        not_applicable.append(dict(property=p["id"], reason=" ".join(na[p["id"]].split())))
m = dict(
    version=1, setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="cfg(kani)", enable="cargo kani compiles /repo's crates with --cfg kani; nothing else sets it",
               source_commits=open(os.path.join(D, "hooks.txt")).read().split()),
    checks=checks, not_applicable=not_applicable,
    notes="props.toml lists the proof jobs of each property, proofs/ holds the contracts and harnesses, DESIGN.md the argument.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
