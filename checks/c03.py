"""C03: revocations are accepted only with authority over what they revoke."""
import sim
from sim import mk, subs, show
from kctx import *
from chain import *
import members, inserters

STORE_INS = "keyhive_core::store::revocation::RevocationStore::insert"


class C(KCtx):
    def __init__(self, P):
        super().__init__(P)
        self.ends, self.ins = [], []
        self.inline_stop = tuple(self.inline_stop) + (r"Group::rebuild$",)

    def keep(self, p):
        if p.k in ("eq", "lt", "exhausted", "iterating"): return True
        if p.k == "call" and p.a[0].endswith(("is_descendant_of", "is_ancestor_of")): return True
        return p.k == "is" and p.a[0].k == "fld" and p.a[0].a[2] == "proof"

    def on_elem_end(self, s, e, facts, fn, line):
        self.ends.append((e, facts, f"{fn.path} ({fn.file}:{line})"))

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        if res == STORE_INS or path == STORE_INS:
            self.ins.append((args[1], st.facts, f"{fn.path} ({fn.file}:{line})"))


def run(rep, P, tier):
    """Path-sensitive dataflow over GroupState::add_revocation (inlined through Group::receive_revocation): at every insertion
    into a revocation store the subject, root-issuer or proof-relation facts must hold, and the proof's own chain must have been
    walked with the bounds and links of a delegation. Call-graph dominance: only audited functions insert."""
    entry = GR + "::receive_revocation"
    if rep.fn(entry):
        c = C(P)
        s = sim.Sim(P, c)
        s.entry(entry)
        rep.use(s)
        heads = {}
        for R, facts, where in c.ins:
            sub = any(is_call(x, "subject") and fld(x.a[1][0], "payload", "revoke") is R and group_id(y) for x, y in eqs(facts))
            rep.need(sub, "rev:subject", f"{where}: a revocation is stored without the subject of the delegation it revokes having been compared with this group's id", where)
            root = any(issuer_of(x) is R and group_id(y) for x, y in eqs(facts))
            if root: rep.ok("rev:root", where); continue
            if none_proof(facts, R) or not some_proof(facts, R):
                rep.bad("rev:root", f"{where}: a revocation without proof is stored although it may not have been issued by the group's key")
                continue
            Q = proof_of(facts, R)
            if not rep.need(Q is not None, "rev:proof", f"{where}: the proof of a revocation is not examined"): continue
            heads[id(Q)] = Q
            ps = any(is_call(x, "subject") and x.a[1][0] is Q and group_id(y) for x, y in eqs(facts))
            rep.need(ps, "rev:proof-subject", f"{where}: a revocation is stored whose proof may belong to another group", where)
            related = any((fld(x, "payload", "revoke") is R and y is Q) for x, y in eqs(facts)) or any(
                t and ((is_call(p, "is_descendant_of") and fld(p.a[1][0], "payload", "revoke", "payload") is R and p.a[1][1] is Q)
                       or (is_call(p, "is_ancestor_of") and fld(p.a[1][0], "payload") is Q and fld(p.a[1][1], "payload", "revoke") is R))
                for p, t in facts)
            party = any(issuer_of(x) is R and (issuer_of(y) is Q or ident_of_delegate(y) is Q) for x, y in eqs(facts))

            def acc(a): return fld(a, "payload", "revoke", "payload", "can") is R
            tm = transitive_with(facts, R, Q, acc)
            rep.need((related and party) or tm, "rev:authority", f"{where}: a revocation is stored without it being established that its issuer "
                     "has authority over what is revoked: neither (proof is or precedes the revoked delegation and the issuer is a party to the proof) "
                     "nor (the issuer is a transitive member of the proof's delegate with the revoked access)", where)
            okk, why = walked(facts, Q)
            rep.need(okk, "rev:walk", f"{where}: a revocation is stored but {why}", where)
        rep.floor("rev:insertions", len(c.ins), 2, "insertions into revocation stores")
        rep.floor("rev:proofs", len(heads), 1, "proofs of revocations")
        for Q in heads.values():
            first, m = judge_links(rep, "rev", c.ends, Q)
            rep.need(first, "rev:first-link", "no step of the walk establishes who signed the proof itself")
            rep.floor("rev:chain-steps", m, 1, "steps over the proof's chain")
    rep.expect("rev:subject", "rev:root", "rev:proof-subject", "rev:authority", "rev:walk", "rev:bound", "rev:link")
    members.lineage(rep, P)
    members.subject(rep, P)
    members.identity(rep, P)
    members.access_order(rep, P)
    inserters.check(rep, P, "revocation", STORE_INS, {
        GS + "::add_revocation": "decided above", GR + "::receive_revocation": "decided above",
        GS + "::new": "what the first delegation of a group depends on",
        KH + "::promote_individual_to_group": "re-inserts stored revocations", KH + "::try_from_archive": "own archive",
        "keyhive_core::store::revocation::RevocationStore::from_iter_direct": "constructor of a store"}, 3)



def proof_of(facts, R):
    """The term X.payload.proof.(Some).0 of R, however it is spelled in the facts."""
    for p, t in facts:
        for x in subs(p):
            if x.k == "fld" and x.a[2] == "0" and x.a[3] == "Some" and fld(x.a[0], "payload", "proof") is R: return x
    return None
