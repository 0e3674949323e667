#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AS = "account_storage/src/"
TS = "token_account_storage/src/"
CM = "common/src/"

def P(id, title, statement, over, qtext, why, files, mech, technique, level, note, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, level=level, note=note, observe=observe)

VERUS = "contract-based deductive verification (Verus) of the extracted real functions; executable contracts replayed on the real crates"
TRUST = " Assumes the extraction rules of DESIGN.md and the stand-in contracts for std containers/dependencies listed in the evidence."
L = []
exec(open(os.path.join(HERE, "tools", "texts.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        **({"observe_at": p["observe"]} if p["observe"] else {}), "hook_needed": None}}) + "\n")
NA = globals().get("NOT_APPLICABLE", [])
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
                  for p in L if p["id"] not in {n["property"] for n in NA}],
       "not_applicable": NA,
       "notes": "No hooks in /repo. Checks read /repo's sources as they are, build in /repo/target (ignored by git) and in /verif/.work (ignored)."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
