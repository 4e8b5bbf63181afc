#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (python3 tools/gen_meta.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique=None,
         claimed=True, reason=None, observe=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, technique=technique, claimed=claimed,
                  reason=reason, observe=observe, thorough=thorough))
exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        for fn in p["files"]:
            assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in P:
    if p["claimed"] and os.path.exists(os.path.join(HERE, "harness", p["id"] + ".cpp")):
        c = dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"])
        if p["thorough"]:
            c["thorough_cmd"] = "python3 check.py %s thorough" % p["id"]
        c["technique"] = p["technique"]
        c["level"] = "exploration"
        c["level_note"] = p["note"]
        checks.append(c)
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "the check is not built yet"))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
