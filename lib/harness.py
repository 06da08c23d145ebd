"""Common driver: runs one property's rules, compares what they report with the
known findings, writes the evidence file and the report a violation refers to."""
import argparse
import json
import os
import re
import sys
import time
import traceback

from ir import Broken, library, VERIF
import absint


# what the library can be built as; the quick tier judges the first
CONFIGS = [("as built", ("ARGUS_REGEX",)), ("no regex", ()), ("shallow", ("ARGUS_REGEX", "MAX_SUBCOMMAND_DEPTH=2")),
           ("debug, no colour", ("ARGUS_REGEX", "ARGUS_DEBUG", "NO_COLOR"))]


class Ctx:
    """Collects what a check analysed and what it found."""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.counts = {}
        self.notes = []
        self.viol = []      # (key, where, msg, trace)
        self.rules = {}
        self._mod = None
        self.defs = CONFIGS[0][1]
        self.anas = []

    @property
    def mod(self):
        if self._mod is None:
            self._mod = library(self.defs)
        return self._mod

    def config(self, name, defs):
        self.defs, self._mod, self.anas = defs, None, []
        self.counts.setdefault("_configurations", set()).add(name)

    def thorough(self):
        return self.tier == "thorough"

    def rule(self, rid, text):
        self.rules.setdefault(rid, {"rule": text, "instances": 0})

    def inst(self, rid, n=1):
        if rid not in self.rules:
            return          # a rule of a sibling property sharing this analysis
        self.rules[rid]["instances"] += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def setcount(self, name, n):
        self.counts[name] = n

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)

    def violation(self, rule, where, msg, trace=()):
        if rule not in self.rules:
            return
        for v in self.viol:
            if v[0] == rule and v[1] == where and v[2] == msg:
                return
        self.viol.append((rule, where, msg, list(trace)))

    def absorb(self, ana, rule=None):
        """take over the findings and statistics of an abstract interpretation"""
        for (r, where, msg), tr in ana.findings.items():
            self.violation(r, where, msg, tr)
        self.count("abstract_states", ana.stats["states"])
        self.count("call_sites_evaluated", ana.stats["calls"])
        self.counts.setdefault("_roots", set()).update(ana.stats["roots"])
        self.counts.setdefault("_entered", set()).update(ana.stats["inlined"])
        self.counts.setdefault("_opaque", set()).update(ana.stats.get("opaque", ()))
        self.counts.setdefault("_externals", set()).update(ana.stats["externals"])
        if ana.stats["unmodelled"]:
            self.counts.setdefault("_unmodelled", set()).update(ana.stats["unmodelled"])

    def engine(self, ana, budget=400000):
        self.anas.append(ana)
        return absint.Engine(self.mod, ana, budget)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)$", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def fingerprint(v):
    """identifies a finding by rule and construct (function-level place), not by line"""
    rule, where, msg, _ = v
    w = re.sub(r":\d+", "", where)
    return re.sub(r"[^A-Za-z0-9_.:/@#=<>+*&|()-]+", "_", "%s@%s" % (rule, w))


def main(run, pid, level, assumptions=()):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("-v", action="store_true")
    a, _ = ap.parse_known_args()
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ctx = Ctx(pid, a.tier)
    try:
        for n, (name, defs) in enumerate(CONFIGS if a.tier == "thorough" else CONFIGS[:1]):
            ctx.config(name, defs)
            run(ctx)
        for rid, r in ctx.rules.items():
            if r["instances"] == 0 and not ctx.viol:
                raise Broken("rule %s matched no instance" % rid)
    except Broken as e:
        for ana in ctx.anas:
            ctx.absorb(ana)
        if ctx.viol:
            print("note: analysis incomplete: %s" % e)
        else:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3
    known = known_findings(pid)
    new, old = [], []
    for v in ctx.viol:
        fp = fingerprint(v)
        k = [x for x in known if x[0] == fp]
        if k:
            old.append((v, k[0]))
        else:
            new.append(v)
    cov = {"explanation": "", "rules": {k: v["rule"] for k, v in ctx.rules.items()},
           "rule_instances": {k: v["instances"] for k, v in ctx.rules.items()}}
    for k, v in sorted(ctx.counts.items()):
        if isinstance(v, (set, frozenset)):
            cov[k.strip("_")] = sorted(v)
            cov[k.strip("_") + "_count"] = len(v)
        else:
            cov[k] = v
    n = sum(r["instances"] for r in ctx.rules.values())
    cov["obligations"] = n
    cov["explanation"] = ("static analysis of the library compiled from /repo's working tree to LLVM IR; %d rule instances over %d rules; "
                          "%s" % (n, len(ctx.rules), "; ".join(ctx.notes)))
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, sort_keys=True)
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k[1], v[1]))
    if new:
        rp = os.path.join(VERIF, "build", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + ".txt")
        with open(path, "w") as f:
            for v in new:
                f.write("%s\n  where: %s\n  what:  %s\n  key:   %s\n" % (v[0], v[1], v[2], fingerprint(v)))
                if v[0] in ctx.rules:
                    f.write("  rule:  %s\n" % ctx.rules[v[0]]["rule"])
                if v[3]:
                    f.write("  path:\n")
                    for s in v[3]:
                        f.write("    %s\n" % s)
        for v in new[:12]:
            print("  %s: %s [%s]" % (v[1], v[2], v[0]))
            if a.v:
                for s in v[3]:
                    print("      %s" % s)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s instances=%d wall=%.1fs" % (pid, n, time.time() - t0))
    return 0
