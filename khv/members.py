"""Obligations on the small functions the authority rules are phrased in."""
import sim
from sim import mk, subs, show
from kctx import *
from chain import fld, none_proof, some_proof

SUBJ = f"<{SIGNED}<{DLG}<F, S, T, L>> as {KC}crypto::signed_ext::SignedSubjectId>::subject_id"


class Plain(KCtx):
    """Without one of the canonical names, so that the function itself is evaluated."""

    def __init__(self, P, *without):
        super().__init__(P)
        self.canon = {a: b for a, b in self.canon.items() if b not in without}

    def keep(self, p): return p.k in ("is", "eq", "lt")


def depth(t):
    """self.proof.0.payload.proof.0 -> 2 (number of proof steps), None when not rooted in a parameter."""
    n = 0
    while t.k == "fld":
        if t.a[2] == "proof": n += 1
        t = t.a[0]
    return n if t.k == "param" else None


def lineage(rep, P):
    p = DLG + "::proof_lineage"
    if not rep.fn(p): return
    s = sim.Sim(P, Plain(P, "lineage"))
    seen = set()
    for ret, facts, _ in s.entry(p):
        if any(is_call(x, "successors") for x in subs(ret)):
            seen |= {0, 1, 2}
            continue
        ends = [q.a[0] for q, t in facts if q.k == "is" and fld(q.a[0], "proof") is not None and (q.a[1] == "None") == bool(t)]
        if not ends and any(x.k == "deepelem" for x in subs(ret)): continue     # unrolled beyond the depth bound
        rep.need(len(ends) >= 1, "lineage:end", f"proof_lineage can return before it has reached a delegation without proof ({show(ret, 4)[:200]})", "reaches the root")
        for e in ends:
            d = depth(e)
            if d is None or d > 4: continue
            # e = self(.proof.0.payload)^(d-1).proof is None: the chain has d-1 links
            if any(x.k == "call" and x.a[0].endswith(("::rev", "::reverse")) for x in subs(ret)):
                rep.bad("lineage:order", "proof_lineage does not return the chain from the delegation towards the root")
            got = {depth(x) for x in subs(ret) if x.k == "fld" and x.a[2] == "0" and fld(x.a[0] if x.a[0].k == "fld" else x, "proof") is not None}
            got |= {depth(x) for x in subs(ret) if x.k == "fld" and x.a[2] == "0" and x.a[0].k == "fld" and x.a[0].a[2] == "proof"}
            want = set(range(1, d))
            rep.need(want <= got, "lineage:complete", f"proof_lineage leaves out links of a chain of length {d - 1} (returns {sorted(x for x in got if x)})", f"length {d - 1}")
            seen.add(d - 1)
    rep.need({0, 1, 2} <= seen, "lineage:lengths", f"proof_lineage was not seen to return chains of lengths 0, 1 and 2 (got {sorted(seen)})")


def subject(rep, P):
    if rep.fn(SUBJ):
        s = sim.Sim(P, Plain(P, "subject"))
        n = 0
        for ret, facts, _ in s.entry(SUBJ):
            X = fld(ret, "issuer")
            n += 1
            rep.need(X is not None and none_proof(facts, X), "subject:delegation",
                     f"the subject of a delegation is not the issuer of the root of its proof chain ({show(ret, 8)[:300]})", show(ret, 4)[:80])
        rep.floor("subject:paths", n, 2, "paths of Signed<Delegation>::subject_id")
    r = SUBJ.replace(DLG, REV)
    if rep.fn(r):
        s = sim.Sim(P, Plain(P))
        for ret, facts, _ in s.entry(r):
            okk = is_call(ret, "subject") and fld(ret.a[1][0], "payload", "revoke") is not None
            rep.need(okk, "subject:revocation", f"the subject of a revocation is not the subject of the delegation it revokes ({show(ret, 8)[:300]})", show(ret, 5))


def identity(rep, P):
    """An agent's identity and key are those of the principal it stands for."""
    fs = [f"{AG}::id", f"{AG}::agent_id"] + [f.path for f in P.fns.values() if f.path.startswith(f"<{AG}<") and f.path.endswith("Verifiable>::verifying_key")]
    rep.floor("identity:functions", len(fs), 3, "identity functions of Agent")
    for p in fs:
        if not rep.fn(p): continue
        s = sim.Sim(P, Plain(P, "ident"))
        n = 0
        for ret, facts, _ in s.entry(p):
            var = [q.a[1] for q, t in facts if q.k == "is" and t and q.a[0].k == "param"]
            n += 1
            base = ret
            while True:
                if base.k == "call" and len(base.a[1]) >= 1: base = base.a[1][0]
                elif base.k == "agg" and base.a[0] == "adt" and len(base.a[3]) == 1: base = base.a[3][0]
                elif base.k == "agg" and base.a[0] == "adt" and base.a[3]: base = base.a[3][0]
                elif base.k == "fld" and not (base.a[0].k == "param"): base = base.a[0]
                else: break
            good = base.k == "fld" and base.a[0].k == "param" and base.a[2] == "0" and (not var or base.a[3] in var)
            rep.need(good, f"identity:{p.split('::')[-1]}", f"{p} does not return the identity of the principal the agent stands for ({show(ret, 6)[:200]} under {var})", f"{show(ret, 5)[:120]}")
        rep.floor(f"identity:{p.split('::')[-1]}:paths", n, 4, "variants of Agent")


def access_order(rep, P):
    names = ["Relay", "Read", "Edit", "Admin"]
    a = P.adts.get(ACC)
    if not rep.need(a is not None and [v[0] for v in a["variants"]] is not None, "access:type", "type Access is missing"): return
    vs = [v[0] for v in a["variants"]]
    rep.need(all(n in vs for n in names), "access:levels", f"access levels changed: {vs}")

    def val(n): return mk("agg", "adt", ACC, n, ())
    po = next((f for f in P.fns.values() if f.path.startswith(f"<{ACC} as core::cmp::PartialOrd") and f.path.endswith("::partial_cmp")), None)
    od = next((f for f in P.fns.values() if f.path.startswith(f"<{ACC} as core::cmp::Ord") and f.path.endswith("::cmp")), None)
    for f, nm in ((po, "partial_cmp"), (od, "cmp")):
        if not rep.need(f is not None, f"access:{nm}", f"Access has no {nm}"): continue
        if f.derived:
            idx = [vs.index(n) for n in names if n in vs]
            rep.need(idx == sorted(idx), f"access:{nm}", f"the order of access levels is {vs}, not {names}", "derived")
        else:
            rep.bad(f"access:{nm}", f"the order of access levels is hand-written in {f.path} and not decided by this check")
    for fn_, low in (("is_reader", 1), ("is_editor", 2)):
        p = f"{ACC}::{fn_}"
        if not rep.fn(p): continue
        for i, n in enumerate(names):
            s = sim.Sim(P, Plain(P))
            rets = [r for r, _, _ in s.entry(p, args=[val(n)])]
            want = sim.TRUE if i >= low else sim.FALSE
            rep.need(bool(rets) and all(r is want for r in rets), f"access:{fn_}:{n}", f"Access::{n}.{fn_}() is not {i >= low}: {[show(r, 3) for r in rets]}", f"{i >= low}")
