#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
cs, na = [], []
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason=checks.NA.get(p["id"], "no check built yet")))
        continue
    cs.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique="symbolic execution of the crate's compiled LLVM IR with Z3 (bit-vectors), counterexamples replayed natively",
        level="model_checking",
        level_note="bounded: " + "; ".join(f"{h['name']}: {h['bounds']}" for h in c["harnesses"])[:1500]))
m = dict(version=1, setup_cmd="./setup.sh", checks=cs, not_applicable=na)
if checks.HOOK_COMMITS:
    m["hooks"] = dict(guard="--cfg rinex_verif", enable="RUSTFLAGS='--cfg rinex_verif' (set by ./check when it builds the harness crate against /repo)", source_commits=checks.HOOK_COMMITS)
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
