"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
P = []; CHECKS = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note=None, technique=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}})
    if na: NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "./check %s" % id, "thorough_cmd": "./check %s --tier thorough" % id,
                       "technique": technique, "level": "other", "level_note": level_note})
exec(open(os.path.join(D, "table.py")).read())
P.sort(key=lambda p: p["id"]); CHECKS.sort(key=lambda c: c["property"]); NA.sort(key=lambda c: c["property"])
open(os.path.join(D, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": CHECKS, "not_applicable": NA,
           "notes": "All checks are static analyses of /repo's current sources (tool/tdyfacts.cc extracts the type-resolved AST with the build's flags; vf/ holds the analyses). No hooks in /repo."},
          open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(CHECKS), "claimed", len(NA), "not applicable")
