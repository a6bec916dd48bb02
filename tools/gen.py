"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p.get("over", ["inputs"]), "text": p["all"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            if "state" in p:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": w} for a, b, w in p["state"]]
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        if p["id"] in na:
            continue
        checks.append({"property": p["id"],
                       "quick_cmd": "python3-vt engine/run.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3-vt engine/run.py %s --tier thorough" % p["id"],
                       "technique": "symbolic execution of the real Python source, SMT (z3) deciding every requirement, "
                                    "counterexamples replayed on the real code",
                       "level": "model_checking",
                       "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3\" && test -x /opt/venv/bin/python", "checks": checks,
         "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks: the checks read /repo's source on every run and execute it under an instrumenting loader; "
                  "/repo itself carries only fix: commits."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
