#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tool"))
import props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P + props.NOT_APPLICABLE:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
NOTE = ("Decides every instance of the listed obligations for all inputs within the stated quantifier; trusts rustc's front end, the analyser's transfer functions and the reference "
        "specification. Floating point is compared as exact real arithmetic (rounding ignored).")
m = {"version": 1, "setup_cmd": "python3 tool/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 tool/run.py {p['id']} quick", "thorough_cmd": f"python3 tool/run.py {p['id']} thorough",
                 "technique": p["technique"], "level": p["level"], "level_note": (p["note"] + " " + NOTE).strip() + "".join(" Assumes: " + a + "." for a in p["assumptions"])} for p in props.P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NOT_APPLICABLE]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
