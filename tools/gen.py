#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note,
         level="exploration", state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, level=level,
                  state=state, hook=hook))
exec(open(os.path.join(ROOT, "tools", "table.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                 observe_at=p["observe"], hook_needed=p["hook"])
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
checks = [dict(property=p["id"], quick_cmd="./run.sh %s" % p["id"],
               thorough_cmd="VERIF_TIER=thorough ./run.sh %s" % p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
               level=p["level"], level_note=p["note"]) for p in P if p["technique"]]
na = [dict(property=p["id"], reason=p["note"]) for p in P if not p["technique"]]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
