#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props as P

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, s in sorted(list(P.PROPS.items()) + [(n["id"], n) for n in P.NOT_APPLICABLE]):
        assert len(s["title"]) <= 80, pid
        for x in s["files"] + [w for _, w in s["mech"]]:
            assert os.path.exists(os.path.join("/repo", x)), (pid, x)
        assert s["statement"].count(". ") <= 2, (pid, s["statement"].count(". "))
        f.write(json.dumps({
            "id": pid, "title": s["title"], "statement": s["statement"],
            "quantifier": {"over": s["over"], "text": s["quant"]},
            "why_tests_cant": s["why"],
            "anchors": {"files": s["files"], "mechanism": [{"name": a, "where": b} for a, b in s["mech"]]},
        }, ensure_ascii=False) + "\n")

checks = []
for pid, s in sorted(P.PROPS.items()):
    eng = []
    if s.get("verus"):
        eng.append("Verus on functions extracted from the source")
    if s.get("kani"):
        eng.append("Kani contract harnesses on the compiled functions")
    eng.append("contracts executed natively" + (" for replay and counterexample search" if len(eng) else " (bounded)"))
    checks.append({
        "property": pid,
        "quick_cmd": "python3 bin/check.py %s quick" % pid,
        "thorough_cmd": "python3 bin/check.py %s thorough" % pid,
        "technique": "contract-based verification: " + "; ".join(eng),
        "level": s["level"], "level_note": s["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash bin/setup.sh",
    "hooks": {
        "guard": "cfg(kani), cfg(kompact_verif_net), cfg(kompact_verif_pool), cfg(kompact_verif_lifecycle), cfg(kompact_verif_lookup), cfg(kompact_verif_netqueue)",
        "enable": "RUSTFLAGS='--cfg kompact_verif_...' when the contracts crate is built (bin/check.py); cfg(kani) is set by cargo kani",
        "source_commits": P.HOOK_COMMITS,
    },
    "checks": checks,
    "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in P.NOT_APPLICABLE],
    "notes": "See DESIGN.md. bin/gen.py writes this file and properties.jsonl from bin/props.py.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
