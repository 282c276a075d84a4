#!/usr/bin/env python3
"""The catalogue of properties: writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after an edit)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "vfw"))
import props
A = "common/src/primitives/"
P, NA = [], []


def p(id, title, statement, over, text, why, files, mech, technique=None, level="proof", note=None, na=None, **kw):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
               "anchors": dict({"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, **kw)}, technique, level, note, na))


V = "Verus contracts on functions extracted from /repo on every run"
K = "Kani full-domain contract harnesses on the real crate"
exec(open(os.path.join(VERIF, "vfw", "catalog_entries.py")).read())

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for e, *_ in P:
        assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
        f.write(json.dumps(e) + "\n")
checks = []
for e, tech, level, note, na in P:
    if na: NA.append({"property": e["id"], "reason": na}); continue
    assert e["id"] in props.PROPS, e["id"]
    assert props.PROPS[e["id"]].get("level", "proof") == level, e["id"]
    checks.append({"property": e["id"], "quick_cmd": f"python3 vfw/check.py {e['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 vfw/check.py {e['id']}",
                   "technique": tech, "level": level, "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 vfw/check.py --setup", "checks": checks, "not_applicable": NA,
           "notes": "No hooks in /repo. Each check lays the real crates out in a scratch workspace under .build (git-ignored) and builds from /repo's working tree."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
