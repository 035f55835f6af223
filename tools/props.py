#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py regenerates both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level="model_checking", note=None, na=None,
         observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na, observe=observe, state=state))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": m[0], "where": m[1]} for m in p["mech"]], "hook_needed": None}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        if p["state"]:
            a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in p["state"]]
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]},
                             "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if p["na"] is None and os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "none", "enable":
     "no hooks: the checks observe the code through its public interfaces, a scripted PAPI library, files and link-time interposers",
     "source_commits": []}, "checks": checks, "not_applicable": na,
     "notes": "TLA+ checked with TLC; see DESIGN.md. known_findings.txt lists fixed and known defects."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")
