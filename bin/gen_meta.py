#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (development tool; both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique="TLA+ specification model-checked with TLC; recorded traces of the real code validated against it by TLC"):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, note=note, technique=technique))


exec(open(os.path.join(V, "bin", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']} quick",
                 "thorough_cmd": f"python3 bin/check.py {p['id']} thorough",
                 "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in PROPS],
     "not_applicable": [],
     "notes": "No hooks in /repo: every property is observed through the public API. All specifications are in spec/ (TLA+), the drivers of the real code in harness/, see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
