#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "src/fem_domain/domain/"
P = "src/fem_problem/"
PROPS = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                      why_tests_cant=why, anchors=a, technique=technique, note=note))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

have = set(subprocess.run(["grep", "-oE", r'^    \("C[0-9]{2}"', os.path.join(ROOT, "harness/src/props/mod.rs")],
                          capture_output=True, text=True).stdout.replace('    ("', '').replace('"', '').split())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in have:
        checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "the generated-input check of this property is not finished yet"})
m = {"version": 1, "setup_cmd": "cargo build --offline --release --manifest-path harness/Cargo.toml && cargo build --offline --release --manifest-path harness/Cargo.toml --target-dir harness/target/ortho --features ortho", "checks": checks, "not_applicable": na,
     "notes": "All checks share one harness (harness/, a crate with a path dependency on /repo and no hooks in it). Replay a case: harness/target/release/fem2d_verif replay FILE (C29: harness/target/ortho/release/fem2d_verif). Known findings and repairs: known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
