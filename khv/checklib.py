"""Reports, known findings, evidence."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, ir, sim
from sim import mk, subs, show

VERIF = facts.VERIF


class Rep:
    """Collects obligations. An obligation has a stable key (no line numbers) and is discharged or violated."""

    def __init__(self, prop, P):
        self.prop = prop
        self.P = P
        self.obl = {}        # key -> [n checked, rule]
        self.viol = {}       # key -> message
        self.samples = []
        self.analysed = {}
        self.assume = []
        self.notes = []

    def fn(self, path):
        """An anchor function that must exist."""
        f = self.P.fns.get(path)
        if f is None:
            self.bad(f"anchor:{path}", f"anchor function {path} is missing: the rule cannot be decided")
        return f

    def ok(self, key, detail=None):
        self.obl.setdefault(key, 0)
        self.obl[key] += 1
        if detail and self.obl[key] == 1 and len(self.samples) < 60:
            self.samples.append(f"{key}: {detail}"[:400])

    def bad(self, key, msg):
        self.obl.setdefault(key, 0)
        self.obl[key] += 1
        if key not in self.viol: self.viol[key] = msg[:1500]

    def need(self, cond, key, msg, detail=None):
        if cond: self.ok(key, detail)
        else: self.bad(key, msg)
        return cond

    def floor(self, key, n, least, what):
        """Fail closed when fewer instances were seen than were counted by hand."""
        self.analysed[key] = n
        self.need(n >= least, f"floor:{key}", f"only {n} {what} found (at least {least} expected): the rule no longer sees what it must check", f"{n} {what}")

    def expect(self, *keys):
        """Rules that must have been instantiated at least once."""
        for k in keys:
            if k not in self.obl: self.bad(k, f"rule {k} was not instantiated: the construct it decides was not found")

    def use(self, s):
        a = self.analysed
        a["abstract_steps"] = a.get("abstract_steps", 0) + s.steps
        a["call_sites_evaluated"] = a.get("call_sites_evaluated", 0) + s.call_sites
        vf = self.__dict__.setdefault("_vf", set())
        vf |= s.visited_fns
        a["functions_analysed"] = len(vf)
        if s.widened: a["paths_merged_in"] = sorted(set(a.get("paths_merged_in", [])) | s.widened)


def known():
    p = f"{VERIF}/known_findings.json"
    if not os.path.exists(p): return {}
    return json.load(open(p))


def main(prop, run, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        d, info = facts.extract()
        P = ir.Prog(d)
    except facts.Broken as e:
        print(f"cannot analyse: {e}")
        return 2
    rep = Rep(prop, P)
    if P.stolen:
        rep.bad("extract:stolen", f"{P.stolen} function bodies could not be read")
    sys.setrecursionlimit(100000)
    try:
        run(rep, P, tier)
    except sim.Budget as e:
        rep.bad("engine:budget", f"analysis budget exhausted: {e}")
    except Exception:
        rep.bad("engine:exception", traceback.format_exc())
    kf = known().get("findings", {}).get(prop, {})
    new = {k: m for k, m in rep.viol.items() if k not in kf}
    old = {k: m for k, m in rep.viol.items() if k in kf}
    evd = os.environ.get("KHV_EVIDENCE", f"{VERIF}/evidence")
    os.makedirs(evd, exist_ok=True)
    replay = f"{evd}/{prop}.violations.txt"
    nob = len(rep.obl)
    ndis = nob - len(rep.viol)
    cov = {
        "explanation": "Static analysis of the type-checked MIR of the current source tree; nothing is executed. "
                       + (run.__doc__ or "").strip().replace("\n", " "),
        "obligations": nob, "discharged": ndis,
        "instances_checked": sum(rep.obl.values()),
        "analysed": dict(rep.analysed, source_hash=info["hash"], crates=P.crates, functions_in_program=len(P.fns)),
        "rules": sorted(rep.obl)[:400],
        "samples": rep.samples or sorted(rep.obl)[:5],
    }
    if rep.notes: cov["notes"] = rep.notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 3), "violations": len(new),
          "assumptions": rep.assume}
    if old: cov["known_findings"] = sorted(old)
    if new: cov["violation_list"] = [f"{k}: {m}" for k, m in new.items()]
    json.dump(ev, open(f"{evd}/{prop}.json", "w"), indent=1)
    for k, m in old.items():
        print(f"KNOWN-FINDING: property={prop} {k}: {m[:200]}")
    print(f"{prop}: {nob} obligations, {ndis} discharged, {sum(rep.obl.values())} instances, {len(old)} known findings, "
          f"{len(new)} new violations, {time.time() - t0:.1f} s")
    if new:
        with open(replay, "w") as f:
            for k, m in new.items():
                f.write(f"{k}\n    {m}\n")
        for k, m in new.items():
            print(f"  {k}\n      {m[:600]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if os.path.exists(replay): os.unlink(replay)
    return 0
