"""Verdicts, known findings, evidence and replay files shared by all checks."""
from __future__ import annotations

import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation:
    def __init__(self, key, msg, site=None, detail=None):
        self.key, self.msg, self.site, self.detail = key, msg, site, detail


class Report:
    """What one check found and what it looked at."""

    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.undecided = []
        self.discharged = 0
        self.analysed = {}
        self.rule = ""
        self.samples = []

    def ok(self, what=None):
        self.discharged += 1
        if what is not None and len(self.samples) < 12:
            self.samples.append(what)

    def violation(self, key, msg, site=None, detail=None):
        if any(v.key == key for v in self.violations):
            return
        self.violations.append(Violation(key, msg, site, detail))

    def unsure(self, key, why):
        self.undecided.append((key, why))

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n


def known_keys(prop):
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN, encoding="utf-8"):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        head, _, desc = line[len("known: "):].partition(" | ")
        parts = dict(p.split("=", 1) for p in head.split(" ", 1))
        if parts.get("property") == prop:
            out[parts["key"]] = desc
    return out


def finish(rep, tier, level, t0, explanation):
    known = known_keys(rep.prop)
    new, old = [], []
    for v in rep.violations:
        (old if v.key in known else new).append(v)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(rep.prop + "-"):
            os.unlink(os.path.join(rdir, f))
    outv = []
    for i, v in enumerate(new):
        path = os.path.join(rdir, f"{rep.prop}-{i}.json")
        with open(path, "w", encoding="utf-8") as fh:
            json.dump({"property": rep.prop, "key": v.key, "message": v.msg, "site": v.site, "detail": v.detail,
                       "rerun": f"python3-vt /verif/check.py {rep.prop} {tier}"}, fh, indent=1, ensure_ascii=False, default=str)
        where = f" at {v.site[0]}:{v.site[1]} in {v.site[2]}" if v.site else ""
        print(f"{rep.prop}: {v.msg}{where}")
        print(f"VIOLATION property={rep.prop} replay={path}")
        outv.append({"key": v.key, "message": v.msg, "site": v.site, "replay": path})
    for v in old:
        print(f"KNOWN-FINDING: property={rep.prop} {v.msg} [{v.key}]")
    ev = {
        "property": rep.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": explanation, "rule": rep.rule, "analysed": rep.analysed,
            "obligations": rep.discharged + len(rep.violations) + len(rep.undecided), "discharged": rep.discharged,
            "violated": len(rep.violations), "undecided_count": len(rep.undecided),
            "undecided": [f"{k}: {w}" for k, w in rep.undecided][:60],
            "samples": rep.samples,
            "known_findings": [v.key for v in old], "reported": outv,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, f"{rep.prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False, default=str)
    print(f"{rep.prop}: {rep.discharged} obligations discharged, {len(rep.violations)} violated "
          f"({len(old)} known), {len(rep.undecided)} undecided, {ev['wall_s']} s")
    sys.stdout.flush()
    return 1 if new else 0
