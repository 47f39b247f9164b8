"""Findings, known findings, evidence files and exit codes."""

import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


class Broken(Exception):
    """the analysis cannot speak about this tree at all"""


class Report:
    def __init__(self, prop, tier, root):
        self.prop, self.tier, self.root = prop, tier, root
        self.findings = []      # dicts rule, construct, message, where, detail
        self.coverage = {}
        self.undecided = []
        self.rules = []
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.floor = None
        self.by_rule = {}

    def add(self, rule, construct, message, where=None, detail=None):
        for f in self.findings:
            if (f["rule"], f["construct"], f["message"]) == (rule, construct, message):
                return
        self.findings.append({"rule": rule, "construct": construct, "message": message, "where": where, "detail": detail})

    def oblige(self, ok, rule, construct, message, where=None, detail=None):
        """one obligation: True discharged, False violated, None undecided"""
        self.obligations += 1
        self.by_rule[rule] = self.by_rule.get(rule, 0) + 1
        if ok is True:
            self.discharged += 1
            if len(self.samples) < 12 and self.obligations % 7 == 1:
                self.samples.append("%s: %s" % (rule, construct))
        elif ok is False:
            self.add(rule, construct, message, where, detail)
        else:
            self.undecided.append("%s: %s: %s" % (rule, construct, message))
        return ok

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("known: "):
                out.append(json.loads(l[len("known: "):]))
    return out


def finish(rep, t0, level, explanation, replay=None):
    known = [k for k in known_findings() if k["property"] == rep.prop]
    fresh, listed = [], []
    for f in rep.findings:
        hit = [k for k in known if (k["rule"], k["construct"], k["message"]) == (f["rule"], f["construct"], f["message"])]
        (listed if hit else fresh).append(f)
    if rep.floor is not None and rep.obligations < rep.floor and not fresh and not rep.undecided:
        raise Broken("only %d obligations were found where at least %d are expected" % (rep.obligations, rep.floor))
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    path = os.path.join(ev, rep.prop + ".json")
    cov = {"explanation": explanation, "obligations": rep.obligations, "discharged": rep.discharged,
           "undecided": len(rep.undecided), "rules": rep.rules or ["%s (%d)" % z for z in sorted(rep.by_rule.items())], "samples": rep.samples[:12]}
    cov.update(rep.coverage)
    if rep.undecided:
        cov["undecided_list"] = sorted(set(str(u) for u in rep.undecided))[:60]
    if listed:
        cov["known_findings"] = [f["message"] for f in listed]
    doc = {"property": rep.prop, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
           "coverage": cov, "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(fresh)}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
        f.write("\n")
    for f in listed:
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, f["message"]))
    rdir = os.path.join(ev, "replay")
    old = os.path.join(rdir, rep.prop + ".txt")
    if os.path.exists(old):
        os.remove(old)
    print("%s: %d obligations, %d discharged, %d undecided, %d findings (%d known) in %.1f s" % (
        rep.prop, rep.obligations, rep.discharged, len(rep.undecided), len(rep.findings), len(listed), time.time() - t0))
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        with open(old, "w") as f:
            for x in fresh:
                f.write("rule:      %s\nconstruct: %s\nwhere:     %s\nfinding:   %s\ndetail:    %s\n\n" % (
                    x["rule"], x["construct"], x["where"], x["message"], x["detail"]))
            f.write("replay: python3 check.py %s\n" % rep.prop)
        for x in fresh[:40]:
            print("  [%s] %s: %s (%s)" % (x["rule"], x["where"] or "", x["message"], x["detail"]))
        print("VIOLATION property=%s replay=%s" % (rep.prop, os.path.relpath(old, HERE)))
        return 1
    return 0
