"""Check driver: obligations, reports, known findings, evidence."""
import json
import os
import sys
import time

from .repo import Repo, AnalysisBroken, REPO
from .engine import Engine, Opts
from .terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.repo = Repo()
        self.t0 = self.first_viol = time.time()
        self.known = {k["key"] for k in known_findings() if k.get("property") == pid}
        self.obligations = {}      # (rule, instance) -> [holds, violated, undecided]
        self.viol = {}             # key -> record
        self.stats = {"paths": 0, "infeasible": 0, "imprecise": 0, "bounded": 0, "truncated": 0}
        self.why = {}
        self.functions = set()
        self.assumptions = []
        self.samples = []
        self.min_instances = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def expired(self):
        """out of time; after a violation only a little more is explored"""
        t = time.time()
        return t > self.t0 + (780 if self.thorough else 480) or bool(self.new_violations()) and t > self.first_viol + 15

    def new_violations(self):
        return [k for k in self.viol if k not in self.known]

    # -- exploration ------------------------------------------------------------------
    def explore(self, entry, opts=None, on_path=None, label=""):
        eng = Engine(self.repo, opts or Opts())
        if self.expired():
            self.stats["truncated"] += 1
            return []
        out = eng.explore(entry, on_path, self.expired)
        for k, v in eng.stats.items():
            self.stats[k] += v
        for k, v in eng.imprecise_why.items():
            self.why[(label + ": " if label else "") + k] = self.why.get(k, 0) + v
        self.functions |= {f for f in eng.functions if f.startswith("hyperstate")}
        return out

    # -- parallel ---------------------------------------------------------------------
    def map(self, fns):
        """Run independent explorations fn(ck), in several processes; merge their results in order."""
        import multiprocessing as mp
        fns = list(fns)
        n = min(int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1, 8, len(fns))
        if n <= 1:
            for f in fns:
                f(self)
            return
        global _TASKS
        _TASKS = (self, fns)
        with mp.get_context("fork").Pool(n) as pool:
            for r in pool.imap(_task, range(len(fns)), chunksize=1):
                if isinstance(r, str):
                    raise AnalysisBroken(r)
                self.merge(r)
                if self.expired():
                    self.stats["truncated"] += 1
                    pool.terminate()
                    break

    def merge(self, r):
        ob, viol, stats, why, fns, ass = r
        for k, v in ob.items():
            x = self.obligations.setdefault(k, [0, 0, 0])
            for i in range(3):
                x[i] += v[i]
        for k, v in viol.items():
            if k not in self.viol:
                if not self.new_violations():
                    self.first_viol = time.time()
                self.viol[k] = v
        for k, v in stats.items():
            self.stats[k] += v
        for k, v in why.items():
            self.why[k] = self.why.get(k, 0) + v
        self.functions |= fns
        for a in ass:
            self.assume(a)

    # -- obligations ------------------------------------------------------------------
    def ob(self, rule, inst, ok, detail="", where=None, ctx=None):
        """ok: True (discharged on this path), False (violated), None (undecided)."""
        r = self.obligations.setdefault((rule, inst), [0, 0, 0])
        if ok is True:
            r[0] += 1
        elif ok is None:
            r[2] += 1
        else:
            r[1] += 1
            key = "%s:%s" % (rule, inst)
            if key not in self.viol:
                if not self.new_violations():
                    self.first_viol = time.time()
                self.viol[key] = {"key": key, "rule": rule, "instance": inst, "detail": detail,
                                  "where": where or "", "path": ctx or []}
        return ok

    def need(self, n, rule=None):
        """The analysis is broken if fewer than n obligations (of a rule) were decided."""
        d = sum(1 for (r, _), v in self.obligations.items() if (rule is None or r == rule) and (v[0] or v[1]))
        if d < n:
            raise AnalysisBroken("only %d decided obligations%s, expected at least %d"
                                 % (d, " of rule " + rule if rule else "", n))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


_TASKS = None


def _task(i):
    ck, fns = _TASKS
    sys.setrecursionlimit(20000)
    ck.obligations, ck.viol, ck.why, ck.functions, ck.assumptions = {}, {}, {}, set(), []
    ck.stats = {k: 0 for k in ck.stats}
    try:
        fns[i](ck)
    except AnalysisBroken as e:
        return str(e)
    return ck.obligations, ck.viol, ck.stats, ck.why, ck.functions, ck.assumptions


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def path_ctx(p, limit=14):
    """Human readable context of a path: the branch conditions and the effects on it."""
    out = []
    for a, v in p.run.fact_log:
        s = show(a)
        if len(s) > 160:
            s = s[:157] + "..."
        out.append("%s%s" % ("" if v else "not ", s))
    return out[-limit:]


def selftest():
    """setup: the checker parses itself and the analysed package"""
    r = Repo()
    n = len(r.modules)
    if n < 10:
        print("ANALYSIS-BROKEN only %d modules of the package found" % n)
        return 2
    print("analysable modules: %d" % n)
    return 0


def main(argv):
    if argv == ["--selftest"]:
        return selftest()
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    pid = a.pid
    broken = None
    try:
        ck = Check(pid, a.tier, seed)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    try:
        mod = importlib.import_module("sa.checks.%s" % pid.lower())
        mod.run(ck)
    except AnalysisBroken as e:
        broken = e
    known = {k["key"]: k for k in known_findings() if k.get("property") == pid}
    new = []
    for k, v in sorted(ck.viol.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k].get("what", k)))
        else:
            new.append(v)
    if broken is not None and not new:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        return 2
    os.makedirs(EVID, exist_ok=True)
    tot = [sum(v[i] for v in ck.obligations.values()) for i in range(3)]
    decided = [k for k, v in ck.obligations.items() if v[0] or v[1]]
    level = getattr(mod, "LEVEL", "other")
    rules = {}
    for (r, i), v in ck.obligations.items():
        x = rules.setdefault(r, {"instances": 0, "held": 0, "violated": 0, "undecided": 0})
        x["instances"] += 1
        x["held"] += v[0]
        x["violated"] += v[1]
        x["undecided"] += v[2]
    cov = {
        "explanation": getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()),
        "evaluations": tot[0] + tot[1] + tot[2],
        "distinct_nontrivial": len(decided),
        "rule": "one evaluation is one obligation (rule instance) on one abstract path of the analysed "
                "source; distinct_nontrivial counts the different (rule, instance) pairs that were decided",
        "obligations": len(ck.obligations),
        "discharged": sum(1 for v in ck.obligations.values() if v[0] and not v[1] and not v[2]),
        "rules": rules,
        "paths": ck.stats,
        "not_represented": dict(sorted(ck.why.items(), key=lambda x: -x[1])[:20]),
        "functions_analysed": sorted(ck.functions),
        "samples": ["%s | %s | held on %d paths, violated on %d, undecided on %d" % (r, i, *v)
                    for (r, i), v in list(sorted(ck.obligations.items()))[:40]],
        "analysed_root": ck.repo.root,
    }
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ck.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(EVID, pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new:
            print("violated: rule %s, instance %s\n   %s\n   at %s" % (v["rule"], v["instance"], v["detail"], v["where"]))
            for c in v["path"]:
                print("      if " + c)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("property=%s held: %d rule instances decided on %d paths (%d undecided evaluations, %d paths not represented), %.1fs"
          % (pid, len(decided), ck.stats["paths"], tot[2], ck.stats["imprecise"], time.time() - t0))
    return 0
