#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from specs.py/props.py."""
import json
import os

import specs

HERE = os.path.dirname(os.path.abspath(__file__))
NOT_APPLICABLE = getattr(specs, "NOT_APPLICABLE", [])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid in sorted(specs.PROPS):
            p = specs.PROPS[pid]
            assert len(p["title"]) <= 80, (pid, len(p["title"]))
            f.write(json.dumps({
                "id": pid, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks = []
    for pid in sorted(specs.PROPS):
        p = specs.PROPS[pid]
        if p.get("not_applicable"):
            continue
        checks.append({
            "property": pid,
            "quick_cmd": "python3 run.py %s --tier quick" % pid,
            "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
    man = {"version": 1, "setup_cmd": "python3 run.py --setup",
           "checks": checks,
           "not_applicable": [{"property": pid, "reason": p["not_applicable"]} for pid, p in sorted(specs.PROPS.items())
                              if p.get("not_applicable")],
           "notes": "No hooks: the checks read /repo/include as it is. Generated by gen.py from specs.py and props.py."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
