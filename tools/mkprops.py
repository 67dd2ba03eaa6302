#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so they stay in step.
Usage: python3 tools/mkprops.py   (from /verif)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GF = "hatchet/graphframe.py"; GR = "hatchet/graph.py"; ND = "hatchet/node.py"; FR = "hatchet/frame.py"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, note, technique=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, note=note, technique=technique, claimed=claimed, reason=reason))
exec(open(os.path.join(HERE, "tools", "proptable.py")).read())
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    impl = lambda p: os.path.exists(os.path.join(HERE, "hv", "props", p["id"].lower() + ".py"))
    checks, na = [], []
    for p in P:
        if p["claimed"] and impl(p):
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check %s --tier quick" % p["id"],
                "thorough_cmd": "./check %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"] or "runtime monitoring: online reference-model oracle over observed API executions, seeded random workloads",
                "level": "exploration",
                "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["reason"] or "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks are compiled into /repo: the monitors wrap the public API from outside (hv/). "
                  "known_findings.txt lists recorded and repaired defects."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    print(len(P), "properties,", len(checks), "claimed")
main()
