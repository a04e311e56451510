#!/usr/bin/env python3
"""Writes MANIFEST.json from driver/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import props
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in allp:
    if p in props.PROPS:
        i = props.PROPS[p]
        checks.append({
            "property": p,
            "quick_cmd": "./check %s --tier quick" % p,
            "thorough_cmd": "./check %s --tier thorough" % p,
            "technique": i.get("technique", props.TECHNIQUE),
            "level": i.get("level", "exploration"),
            "level_note": i.get("note", props.NOTE),
        })
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "hooks": {
        "guard": "cfg(hyperdrive_verif)",
        "enable": "only harness/vderive compiles /repo/derive/src/lib.rs with this cfg, emitted by its build script; every other crate uses /repo through a plain path dependency",
        "source_commits": ["76bb51f"],
    },
    "checks": checks,
    "not_applicable": [{"property": p, "reason": props.NOT_APPLICABLE.get(p, "machinery under construction")} for p in allp if p not in props.PROPS],
    "notes": "Every check builds what it needs from /repo's working tree in /verif/.work (git-ignored). ./check replay FILE re-runs a reported violation.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
