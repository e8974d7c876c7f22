#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv import VERIF, REPO
from props import PROPS, TECH
try:
    from props import NOT_CLAIMED
except ImportError:
    NOT_CLAIMED = []
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for i, p in sorted({**PROPS, **{n["id"]: n for n in NOT_CLAIMED}}.items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        for x in p["files"]:
            assert os.path.exists(os.path.join(REPO, x)), (i, x)
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mechanism"]}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i} thorough",
                 "technique": p.get("technique", TECH), "level": p.get("level", "proof"), "level_note": p["level_note"]} for i, p in sorted(PROPS.items())],
     "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_CLAIMED],
     "notes": "Contracts are in contracts/*.spec, specification vocabulary in contracts/*_prelude.rs; tools/vx extracts the code, tools/dv.py composes, tools/prove.py runs Verus. No hooks in /repo."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
