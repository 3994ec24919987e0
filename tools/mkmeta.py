#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta.py."""
import json, os, re, sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from meta import P

root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert len(re.findall(r"\.(\s|$)", p["statement"])) <= 3, p["id"]
        for x in p["files"] + [m["where"] for m in p["mechanism"]]:
            assert os.path.exists("/repo/" + x), (p["id"], x)
        f.write(
            json.dumps(
                {
                    "id": p["id"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["quantifier"]},
                    "why_tests_cant": p["why"],
                    "anchors": {"files": p["files"], "mechanism": p["mechanism"]},
                },
                ensure_ascii=False,
            )
            + "\n"
        )
man = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["level_note"],
            "evidence_file": f"evidence/{p['id']}.json",
        }
        for p in P
    ],
    "notes": "All checks build one harness against the working tree of /repo. VERIF_SEED selects the generated cases.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
