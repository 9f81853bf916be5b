#!/usr/bin/env python3
"""The properties, in one editable place: writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "openptv_python/"
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": text},
            why_tests_cant=why,
            anchors={
                "files": [M + f for f in files],
                "state": [dict(name=a, meaning=b, where=M + c) for a, b, c in state],
                "mechanism": [dict(name=a, where=M + b) for a, b in mechanism],
                "observe_at": list(observe),
                "hook_needed": None,
            },
            technique=technique,
            note=note,
        )
    )


exec(open(os.path.join(HERE, "tools", "prop_list.py"), encoding="utf-8").read())


def main():
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -m vp.deps",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "/opt/venv/bin/python run.py " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python run.py " + p["id"],
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in PROPS
            if p["id"] not in na and os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))
        ],
        "not_applicable": NOT_APPLICABLE
        + [
            {"property": p["id"], "reason": "its check is being written"}
            for p in PROPS
            if p["id"] not in na and not os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))
        ],
        "notes": "Every check: Hypothesis generation, an oracle written apart from the code, shrinking, a JSON replay "
        "file. See DESIGN.md. No hooks in /repo.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
