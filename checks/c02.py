"""C02: delegations cannot exceed or fake the authority they derive from."""
import re
import sim
from sim import mk, subs, show
from kctx import *
from chain import *
import members, inserters

STORE_INS = "keyhive_core::store::delegation::DelegationStore::insert"


class C(KCtx):
    def __init__(self, P):
        super().__init__(P)
        self.ends, self.ins, self.store = [], [], None
        self.inline_stop = tuple(self.inline_stop) + (r"Group::rebuild$",)

    def keep(self, p):
        if p.k in ("eq", "lt", "exhausted", "iterating"): return True
        return p.k == "is" and p.a[0].k == "fld" and p.a[0].a[2] == "proof"

    def on_elem_end(self, s, e, facts, fn, line):
        self.ends.append((e, facts, f"{fn.path} ({fn.file}:{line})"))

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        if res == STORE_INS or path == STORE_INS:
            self.ins.append((args[0], args[1], st.facts, f"{fn.path} ({fn.file}:{line})"))


def run(rep, P, tier):
    """Path-sensitive dataflow over GroupState::add_delegation (inlined through Group::receive_delegation): at every insertion
    into a delegation store the subject, root-issuer, access-bound and link facts must hold. Call-graph dominance: only
    audited functions insert. Lineage, subject, identity and access-order helpers are evaluated separately."""
    entry = GR + "::receive_delegation"
    if rep.fn(entry):
        c = C(P)
        s = sim.Sim(P, c)
        outs = s.entry(entry)
        rep.use(s)
        n = 0
        for store, H, facts, where in c.ins:
            n += 1
            # an insertion on a path
            sub = any(is_call(x, "subject") and x.a[1][0] is H and group_id(y) for x, y in eqs(facts))
            rep.need(sub, "add:subject", f"{where}: a delegation is stored without its subject having been compared with this group's id", where)
            if none_proof(facts, H):
                root = any(issuer_of(x) is H and group_id(y) for x, y in eqs(facts))
                rep.need(root, "add:root", f"{where}: a root delegation is stored without its issuer having been compared with the group's key", where)
                continue
            if not some_proof(facts, H):
                # no test of the proof: the root rule has to hold as well
                root = any(issuer_of(x) is H and group_id(y) for x, y in eqs(facts))
                if not root:
                    rep.bad("add:root", f"{where}: a delegation is stored although it may be a root delegation that the group's key did not issue")
            ok, why = walked(facts, H)
            rep.need(ok, "add:walk", f"{where}: a delegation is stored but {why}", where)
        rep.floor("add:insertions", n, 2, "insertions into delegation stores")
        heads = {id(x[1]): x[1] for x in c.ins}
        for H in heads.values():
            first, m = judge_links(rep, "add", c.ends, H)
            rep.need(first, "add:first-link", "no step of the walk establishes who signed the new delegation itself (only the links behind it are checked)")
            rep.floor("add:chain-steps", m, 1, "steps over the proof chain")
    rep.expect("add:subject", "add:root", "add:walk", "add:bound", "add:link")
    members.lineage(rep, P)
    members.subject(rep, P)
    members.identity(rep, P)
    members.access_order(rep, P)
    inserters.check(rep, P, "delegation", STORE_INS, AUDITED, 5)


AUDITED = {
    GS + "::add_delegation": "decided above",
    GR + "::receive_delegation": "decided above",
    GS + "::new": "the head a group is created from",
    GS + "::generate": "root delegations signed by the fresh group key",
    GR + "::generate_after_content": "root delegations signed by the fresh group key",
    KH + "::promote_individual_to_group": "re-inserts stored delegations",
    KH + "::try_from_archive": "own archive",
    KH + "::generate_doc": "the root delegations of a document made here",
    "keyhive_core::store::delegation::DelegationStore::from_iter_direct": "constructor of a store",
}
