#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (developer tool): python3 tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


def na(id, reason):
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "proplist.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    import registry
    checks = []
    for p in P:
        r = registry.CHECKS.get(p["id"])
        if not r:
            assert any(n["property"] == p["id"] for n in NA), p["id"]
            continue
        checks.append({"property": p["id"],
                       "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": r["technique"], "level": r["level"], "level_note": r["note"]})
    m = {"version": 1, "setup_cmd": "python3 engine/front.py", "checks": checks, "not_applicable": NA,
         "notes": "Static analysis only: see DESIGN.md. engine/ is the shared front end and abstract interpreter, "
                  "checks/ the rules, spec/ the reviewed summaries. No hooks are added to /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
