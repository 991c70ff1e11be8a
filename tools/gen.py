#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (single source)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE  # noqa

HOOK_COMMITS = os.popen("git -C /repo log --format=%H --grep='^hook:'").read().split()

def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "observe_at": p.get("observe", []),
                    "hook_needed": p.get("hook"),
                },
            }, ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    man = {
        "version": 1,
        "setup_cmd": "./run.sh setup",
        "hooks": {
            "guard": "cfg akasa_verif",
            "enable": "harness/.cargo/config.toml passes --cfg akasa_verif to rustc",
            "source_commits": HOOK_COMMITS,
        },
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./run.sh check {p['id']} quick",
            "thorough_cmd": f"./run.sh check {p['id']} thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in PROPS if p["id"] not in NOT_APPLICABLE],
        "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
        "notes": "Property-based testing (proptest engine, own runner) of the real akasa-core sources; the unavailable git dependency mqtt-proto is replaced by the stand-in in /verif/mqtt-proto.",
    }
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
