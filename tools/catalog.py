#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []      # claimed properties
NA = []     # (property dict, reason)


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    if na:
        NA.append((d, na))
    else:
        P.append((d, technique, note))


exec(open(os.path.join(HERE, "tools", "catalog_entries.py")).read())


def main():
    ids = [d["id"] for d, *_ in P] + [d["id"] for d, _ in NA]
    assert len(ids) == len(set(ids))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in [d for d, *_ in P] + [d for d, _ in NA]:
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -c 'from sa import build; build.ensure_irx()'",
           "checks": [{"property": d["id"], "quick_cmd": "python3 check.py %s quick" % d["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % d["id"],
                       "technique": t, "level": "other", "level_note": n} for d, t, n in P],
           "not_applicable": [{"property": d["id"], "reason": r} for d, r in NA]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
