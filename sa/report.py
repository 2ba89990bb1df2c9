"""Bookkeeping shared by all checks: obligations, violations, known findings,
evidence."""
import json
import os
import sys
import time

from .build import VERIF, REPO
from .engine import AnalysisBroken

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known():
    """property -> {key: text}.  Lines `finding: property=<id> key=<key> :: text`;
    `fixed:` lines suppress nothing."""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith("finding: "):
                continue
            head, _, text = l[len("finding: "):].partition(" :: ")
            d = dict(x.split("=", 1) for x in head.split(" ", 1))
            r.setdefault(d["property"], {})[d["key"]] = text
    return r


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.ob = {}          # kind -> count of obligations
        self.items = {}       # kind -> set of analysed constructs
        self.viol = []
        self.notes = []
        self.rules = {}
        self.units = set()

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, kind, what=None, n=1):
        self.ob[kind] = self.ob.get(kind, 0) + n
        if what is not None:
            self.items.setdefault(kind, set()).add(str(what))

    def need(self, kind, n):
        """Fewer than n instances means the analysis lost its subject."""
        if self.ob.get(kind, 0) < n:
            raise AnalysisBroken("%s: expected at least %d %s, found %d" % (self.prop, n, kind, self.ob.get(kind, 0)))

    def violation(self, rule, where, msg, key=None, path=None):
        """where: "file:line"; key: stable identity without line numbers."""
        where = str(where).replace(REPO + "/", "")
        msg = msg.replace(REPO + "/", "")
        key = (key or (rule + "|" + where.rsplit(":", 1)[0] + "|" + msg)).replace(" ", "_").replace(REPO + "/", "")
        for v in self.viol:
            if v["key"] == key:
                return
        self.viol.append({"rule": rule, "where": where, "message": msg, "key": key, "path": path or []})

    def finish(self, tier, seed, explanation):
        kn = known().get(self.prop, {})
        new, old = [], []
        for v in self.viol:
            (old if v["key"] in kn else new).append(v)
        cov = {
            "explanation": explanation,
            "rules": self.rules,
            "obligations": dict(sorted(self.ob.items())),
            "obligations_total": sum(self.ob.values()),
            "units_analysed": sorted(self.units),
            "analysed": {k: sorted(v)[:400] for k, v in sorted(self.items.items())},
            "known_findings_seen": [v["key"] for v in old],
            "notes": self.notes,
        }
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3),
              "assumptions": ["clang-18's semantics for the sources (its front end parses what gcc builds)",
                              "the analyser in /verif/sa and /verif/tools"],
              "violations": [{"rule": v["rule"], "where": v["where"], "message": v["message"], "key": v["key"]}
                             for v in new]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kn[v["key"]]))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for v in new:
                    f.write("%s: [%s] %s\n   key: %s\n" % (v["where"], v["rule"], v["message"], v["key"]))
                    for s in v["path"]:
                        f.write("      via %s\n" % s)
            for v in new:
                print("%s: [%s] %s" % (v["where"], v["rule"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s obligations=%d wall=%.1fs" % (self.prop, sum(self.ob.values()), time.time() - self.t0))
        return 0
