#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/meta.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, pkg=None, technique=None, note=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  pkg=pkg, technique=technique, note=note, observe=observe or [], na=na))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["pkg"]:
        cmd = f"bash check.sh {p['pkg']} {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": f"VERIF_TIER=thorough {cmd}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests driven by the engine in engine/ (choice-tape generators, shrinking, replay). See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")
