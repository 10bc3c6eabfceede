"""C04: the membership view is always the replay of the accepted history."""
import sim
from sim import mk, subs, show
from kctx import *
from chain import *
import inserters

REBUILD = GR + "::rebuild"


def ev(what, tok, item): return mk("ev", what, tok, item if item is not None else sim.UNIT)


def is_members(t):
    """the members field of the group itself"""
    b, f = fpath(t)
    return b.k == "param" and f[-1:] == ("members",)


def members_get(t):
    """K for get(self.members, K).(Some).0"""
    if t.k == "fld" and t.a[3] == "Some" and is_call(t.a[0], "get") and is_members(t.a[0].a[1][0]): return t.a[0].a[1][1]
    return None



def sig_of(t):
    """X for the bytes (or value) of X.signature"""
    if t.k == "call" and t.a[0].endswith("to_bytes") and len(t.a[1]) == 1: t = t.a[1][0]
    return fld(t, "signature")


class C(KCtx):
    tokens = True

    def __init__(self, P):
        super().__init__(P)
        self.ends, self.writes, self.ins, self.rm, self.seeds = [], [], [], [], []
        self.kept, self.left = [], []
        self.pops = set()

    def keep(self, p):
        if p.k in ("ev", "alt"): return True
        if p.k == "is":
            x = p.a[0]
            return fld(x, "payload", "proof") is not None or (x.k == "fld" and x.a[0].k == "elem") or is_call(x, "get", "remove")
        if p.k == "call": return p.a[0] in ("contains", "contains_key")
        if p.k == "eq": return any(issuer_of(x) is not None for x in p.a) or any(members_elem(x) for x in p.a)
        if p.k == "lt": return all(fld(x, "payload", "can") is not None for x in p.a)
        if p.k == "exhausted":
            x = p.a[0]
            return x.k == "token" or has_call(x, "reverse_topsort") or (x.k == "fld" and is_call(x.a[0], "get") and x.a[0].a[1][0].k == "token")
        return False

    def canon_facts(self, facts, fn):
        """alt(K, Q): the member K holds another delegation that is at least as powerful as Q"""
        add, drop = [], set()
        for f in facts:
            p, t = f
            if p.k == "lt" and not t:
                m, Q = fld(p.a[0], "payload", "can"), fld(p.a[1], "payload", "can")
                if m is None or Q is None or not members_elem(m): continue
                for q, u in facts:
                    if q.k == "eq" and not u and (q.a == (m, Q) or q.a == (Q, m)):
                        add.append((mk("alt", members_get(m.a[0]), Q), True)); drop |= {f, (q, u)}
            elif p.k in ("lt", "eq") and fn is None and any(x.k == "elem" and members_get(x.a[0]) is not None for y in p.a for x in subs(y)): pass
        return (facts - drop) | frozenset(add) if add else facts

    def on_token(self, s, st, fn, what, tok, item, line):
        where = f"{fn.path} ({fn.file}:{line})"
        e = ev(what, tok, item)
        st.facts = st.facts | {(e, True)}
        mem = is_members(tok) or members_get(tok) is not None
        if mem: self.writes.append((what, tok, item, st.facts | s.before, where))
        elif what == "ins": self.ins.append((tok, item, st.facts | s.before, where))
        elif what == "seed": self.seeds.append((tok, item, st.facts | s.before, where))
        elif what == "remove": self.rm.append((tok, item, st.facts, where))

    def on_store(self, s, facts, val):
        if members_elem(val): self.kept.append((val, facts))
        return val

    def on_filtered(self, s, e, facts, fn):
        if members_elem(e): self.left.append((e, facts, fn.path))

    def on_elem_end(self, s, e, facts, fn, line):
        self.ends.append((e, facts, f"{fn.path} ({fn.file}:{line})"))


def members_elem(t): return t.k == "elem" and members_get(t.a[0]) is not None


def run(rep, P, tier):
    """Dataflow over Group::rebuild with collections as allocation-site tokens: what is admitted to the member map, when an
    operation may be skipped, and that a revocation takes effect on everything that depends on the revoked delegation.
    Call-graph dominance: histories are only extended by functions that replay, and the member map is only written by the replay."""
    if rep.fn(REBUILD):
        replay(rep, P)
    dependencies(rep, P)
    extend(rep, P)
    writers(rep, P)


def contains(facts, tok, item, val):
    for p, t in facts:
        if p.k == "call" and p.a[0] in ("contains", "contains_key") and p.a[1][0] is tok and t == val:
            x = p.a[1][1]
            if x is item or (sig_of(x) is not None and sig_of(x) is item): return True
    return False


def replay(rep, P):
    c = C(P)
    s = sim.Sim(P, c, max_states=48)
    outs = s.entry(REBUILD)
    rep.use(s)

    def ops(facts, variant):
        """operations of that variant the path is working on"""
        r = []
        for p, t in facts:
            if p.k == "is" and ((p.a[1] == variant and t)) and has_call(p.a[0], "reverse_topsort"):
                x = p.a[0]
                r.append(s.field(x, "keyhive_core::principal::group::membership_operation::MembershipOperation", "0", variant))
        return r

    # roles of the collections
    REV, PLAY, DEP, W, TD = set(), set(), set(), set(), set()
    for tok, item, facts, w in c.seeds + c.ins:
        for r in ops(facts, "Revocation"):
            if fld(sig_of(item) or item, "payload", "revoke") is r and tok.k == "token":
                # a worklist that is popped, or directly the revoked set
                (W if any(e is not None and e.k == "elem" and e.a[0] is tok for e, _, _ in c.ends) else REV).add(tok)
    for tok, item, facts, w in c.ins:
        if item.k == "elem" and item.a[0] in W and tok not in W and tok.k == "token": REV.add(tok)
        for d in ops(facts, "Delegation"):
            if item.k == "agg" and item.a[0] == "tup" and item.a[3] and sig_of(item.a[3][0]) is d and tok.k == "token": PLAY.add(tok)
            if sig_of(item) is d and tok.k == "token" : PLAY.add(tok)
    for e, facts, w in c.ends:
        if e.k == "elem" and e.a[0].k == "fld" and is_call(e.a[0].a[0], "get"):
            tk, key = e.a[0].a[0].a[1]
            if tk.k == "token" and any(x.k == "elem" and x.a[0] in W for x in subs(key)): DEP.add(tk)
    PLAY -= DEP
    rep.need(len(REV) == 1, "replay:roles:revoked", f"cannot identify the set of revoked delegations in the replay ({len(REV)} candidates)")
    rep.need(len(PLAY) == 1, "replay:roles:in-play", f"cannot identify the delegations in play in the replay ({len(PLAY)} candidates)")
    rep.need(len(DEP) == 1, "replay:roles:dependents", f"a revocation does not look up what depends on the revoked delegation ({len(DEP)} candidates)")
    rep.need(len(W) == 1, "replay:roles:worklist", f"a revocation does not work through everything that depends on the revoked delegation ({len(W)} candidates)")
    if not (len(REV) == len(PLAY) == 1): return
    (REV,), (PLAY,) = REV, PLAY
    DEP = next(iter(DEP), None); W = next(iter(W), None)

    def proof_terms(facts, X):
        r = set()
        for p, _ in facts:
            for y in subs(p):
                if y.k == "fld" and y.a[3] == "Some" and fld(y.a[0], "payload", "proof") is X: r.add(y)
        return r

    def alt(facts, X, Q):
        """another delegation of the author, or of the proof's delegate, at least as powerful as the proof"""
        for p, t in facts:
            if p.k == "alt" and p.a[1] is Q and (issuer_of(p.a[0]) is X or ident_of_delegate(p.a[0]) is Q): return True
        return False

    def justified(facts, X):
        """the operation may take effect: signed-for root, or live proof, or equivalent replacement"""
        if any(issuer_of(a) is X and group_id(b) for a, b in eqs(facts)) : return True
        if not some_proof(facts, X): return False
        for Q in proof_terms(facts, X):
            if contains(facts, REV, Q, False) and contains(facts, PLAY, Q, True): return True
            if alt(facts, X, Q): return True
        return False

    def may_skip(facts, X, dlg):
        if dlg and contains(facts, REV, X, True): return True
        if none_proof(facts, X) and any(q.k == "eq" and not u and any(issuer_of(a) is X for a in q.a) and any(group_id(a) for a in q.a) for q, u in facts): return True
        for Q in proof_terms(facts, X):
            if (contains(facts, REV, Q, True) or contains(facts, PLAY, Q, False)) and not alt(facts, X, Q): return True
        return False

    # 1. writes to the member map
    n = 0
    for what, tok, item, facts, w in c.writes:
        if what in ("clear",): continue
        ds, rs = ops(facts, "Delegation"), ops(facts, "Revocation")
        if ds:
            d = ds[0]
            if what != "ins":
                rep.bad("admit:remove", f"{w}: replaying a delegation removes members"); continue
            n += 1
            vals = subs(item)
            if rep.need(d in vals, "admit:value", f"{w}: something other than the replayed delegation is added to the member map ({show(item, 6)[:200]})", w):
                key = item.a[3][0] if is_members(tok) and item.k == "agg" and item.a[0] == "tup" else members_get(tok)
                rep.need(key is not None and ident_of_delegate(key) is d, "admit:key", f"{w}: a delegation is filed under somebody other than its delegate", w)
                if is_members(tok):
                    # a new entry: must not replace what is there
                    fresh = any(p.k == "is" and is_call(p.a[0], "get") and is_members(p.a[0].a[1][0]) and (p.a[1] == "None") == bool(t) for p, t in facts) or \
                        contains(facts, tok, key, False) or any(members_get(x) is not None for x in vals)
                    rep.need(fresh, "admit:replace", f"{w}: an admitted delegation replaces the delegations its delegate already holds", w)
                rep.need(contains(facts, REV, d, False), "admit:revoked", f"{w}: a delegation is admitted without it being known that it has not been revoked", w)
                rep.need(justified(facts, d), "admit:proof", f"{w}: a delegation is admitted although its proof may have been revoked (and not replaced by an at least "
                         "as powerful delegation of the same people), or it may be a root delegation the group's key did not issue", w)
        elif rs:
            # dropping: an entry is rewritten to what remains of it, or removed
            if what == "ins":
                if is_members(tok):
                    key = item.a[3][0]
                    src = [x for x in subs(item) if members_get(x) is not None]
                    good = all(members_get(x) is key for x in src)
                    rep.need(good, "drop:key", f"{w}: a revocation rewrites the delegations of the wrong member", w)
                else: rep.bad("drop:adds", f"{w}: replaying a revocation adds to the member map")
        else:
            rep.bad("write:outside", f"{w}: the member map is changed outside the processing of a replayed operation")
    # what remains of an entry is everything but the dropped delegation
    D = drops(c, W, PLAY)

    def same_sig(facts, m):
        for p, t in facts:
            if p.k == "eq":
                for a, b in (p.a, p.a[::-1]):
                    if sig_of(b) is m and any(x.k == "elem" and x.a[0] in D for x in subs(a)): return t
        return None
    kept = [(m, f, None) for m, f in c.kept] + [(i, f, w) for tok, i, f, w in c.ins if members_elem(i)]
    for m, facts, w in kept:
        if any(p.k == "iterating" and p.a[0].k == "elem" and p.a[0].a[0] in D for p, t in facts):
            rep.need(same_sig(facts, m) is False, "drop:kept", f"{w or REBUILD}: a delegation taken out of play may stay in the member map")
    for m, facts, w in c.left + [(e, f, w) for e, f, w in c.ends if members_elem(e) and any(i is e for _, i, _, _ in c.ins)
                                 and not any(p.k == "ev" and p.a[0] == "ins" and p.a[2] is e for p, t in f)]:
        if any(p.k == "iterating" and p.a[0].k == "elem" and p.a[0].a[0] in D for p, t in facts):
            rep.need(same_sig(facts, m) is True, "drop:others", f"{w}: dropping a delegation also drops other delegations of the same delegate")
    rep.floor("replay:admissions", n, 2, "admissions to the member map")

    for tok, item, facts, w in c.seeds + c.ins:
        for r in ops(facts, "Revocation"):
            if tok in (W, REV) and fld(sig_of(item) or item, "payload", "revoke") is r:
                rep.need(justified(facts, r), "replay:revoke-proof", f"{w}: a revocation takes effect although its proof may have been revoked or it may not have been issued by the group's key", w)
    # 2. every operation takes effect unless it must not
    nd = nr = 0
    for e, facts, w in c.ends:
        if e.k == "elem" and has_call(e.a[0], "reverse_topsort") and e.a[0].k == "call":
            for d in ops(facts, "Delegation"):
                nd += 1
                if some_proof(facts, d) and DEP is not None:
                    Qs = proof_terms(facts, d)
                    rec = False
                    for p, t in facts:
                        if p.k == "ev" and p.a[0] in ("ins", "seed"):
                            tk, it = p.a[1], p.a[2]
                            if any(sig_of(x) is d for x in subs(it)):
                                if tk is DEP and it.k == "agg" and any(sig_of(it.a[3][0]) is Q for Q in Qs): rec = True
                                if tk.k == "fld" and is_call(tk.a[0], "get") and tk.a[0].a[1][0] is DEP and any(sig_of(tk.a[0].a[1][1]) is Q for Q in Qs): rec = True
                    rep.need(rec, "replay:dependents", f"{w}: a delegation is replayed without being recorded as dependent on its proof", w)
                adm = any(p.k == "ev" and p.a[0] == "ins" and (is_members(p.a[1]) or members_get(p.a[1]) is not None) and d in subs(p.a[2]) for p, t in facts)
                if adm:
                    inplay = any(p.k == "ev" and p.a[0] == "ins" and p.a[1] is PLAY and any(sig_of(x) is d for x in subs(p.a[2])) for p, t in facts)
                    rep.need(inplay, "replay:in-play", f"{w}: a delegation is admitted without being recorded as in play", w)
                else:
                    rep.need(may_skip(facts, d, True), "replay:skip-delegation", f"{w}: a delegation is left out of the member map although nothing revokes it or its proof", w)
            for r in ops(facts, "Revocation"):
                nr += 1
                act = any(p.k == "ev" and p.a[0] == "ins" and p.a[1] is REV for p, t in facts) or (W is not None and any(
                    p.k == "exhausted" and p.a[0] is W and t for p, t in facts))
                if act:
                    for t_ in drops(c, W, PLAY):
                        rep.need(any(p.k == "exhausted" and p.a[0] is t_ and t for p, t in facts), "replay:drop-all", f"{w}: a revocation does not drop every delegation it takes out of play", w)
                else:
                    rep.need(may_skip(facts, r, False), "replay:skip-revocation", f"{w}: a revocation is ignored although its proof is live", w)
        if W is not None and e.k == "elem" and e.a[0] is W:
            rep.need(any(p.k == "ev" and p.a[0] == "ins" and p.a[1] is REV and p.a[2] is e for p, t in facts) , "cascade:revoked",
                     f"{w}: a delegation reached by a revocation is not recorded as revoked", w)
            rep.need(any(p.k == "ev" and p.a[0] == "remove" and p.a[1] is PLAY and p.a[2] is e for p, t in facts), "cascade:in-play",
                     f"{w}: a delegation reached by a revocation stays in play", w)
            done = any((p.k == "exhausted" and t and p.a[0].k == "fld" and is_call(p.a[0].a[0], "get") and p.a[0].a[0].a[1] == (DEP, e)) or
                       (p.k == "is" and is_call(p.a[0], "get") and p.a[0].a[1] == (DEP, e) and (p.a[1] == "None") == bool(t)) for p, t in facts)
            rep.need(done, "cascade:dependents", f"{w}: the dependents of a revoked delegation are not all visited", w)
            for p, t in facts:
                if p.k == "is" and is_call(p.a[0], "remove") and p.a[0].a[1] == (PLAY, e) and (p.a[1] == "Some") == bool(t):
                    dropped = any(q.k == "ev" and q.a[0] == "ins" and (e in subs(q.a[2])) and q.a[1] not in (REV, W) and any(ident_of_delegate(x) is not None or is_call(x, "ident") for x in subs(q.a[2])) for q, u in facts) \
                        or any(q.k == "ev" and (is_members(q.a[1]) or members_get(q.a[1]) is not None) for q, u in facts)
                    rep.need(dropped, "cascade:drop", f"{w}: a delegation taken out of play is not dropped from the member map", w)
        if DEP is not None and e.k == "elem" and e.a[0].k == "fld" and is_call(e.a[0].a[0], "get") and e.a[0].a[0].a[1][0] is DEP and W is not None and any(x.k == "elem" and x.a[0] is W for x in subs(e.a[0])):
            rep.need(any(p.k == "ev" and p.a[0] == "ins" and p.a[1] is W and p.a[2] is e for p, t in facts) or contains(facts, PLAY, e, False), "cascade:push",
                     f"{w}: a delegation in play that depends on a revoked one is not revoked in turn", w)
            rep.need(any(p.k == "ev" and p.a[0] == "ins" and p.a[1] in (REV, W) and p.a[2] is e for p, t in facts), "cascade:mark",
                     f"{w}: a delegation that depends on a revoked one is not recorded as revoked", w)
        # an entry to drop
        if e.k == "elem" and e.a[0] in drops(c, W, PLAY):
            okk = any(p.k == "ev" and is_members(p.a[1]) and p.a[0] in ("ins", "remove") and any(x.k == "fld" and x.a[0] is e for x in subs(p.a[2])) for p, t in facts)
            rep.need(okk, "drop:entry", f"{w}: a delegation taken out of play is not removed from the entry of its delegate", w)
    rep.floor("replay:delegation-ends", nd, 3, "ways a delegation is replayed")
    rep.floor("replay:revocation-ends", nr, 3, "ways a revocation is replayed")
    rep.expect("replay:dependents", "replay:in-play", "replay:revoke-proof", "replay:drop-all", "cascade:revoked", "cascade:in-play", "cascade:dependents",
               "cascade:drop", "cascade:push", "drop:kept", "cascade:mark", "drop:entry", "admit:revoked", "admit:proof", "replay:skip-delegation", "replay:skip-revocation")
    # 3. the whole history is replayed, into an empty view
    for ret, facts, _ in outs:
        rep.need(any(p.k == "ev" and p.a[0] == "clear" and is_members(p.a[1]) for p, t in facts), "replay:clear", "the replay does not start from an empty member map", "cleared")
        rep.need(any(p.k == "ev" and p.a[0] == "clear" and fields(p.a[1])[-1:] == ("active_revocations",) for p, t in facts), "replay:clear-revocations", "the replay does not start without active revocations", "cleared")
        full = any(p.k == "exhausted" and t and is_call(p.a[0], "reverse_topsort") and
                   [fields(x)[-1:] for x in p.a[0].a[1]] == [("delegation_heads",), ("revocation_heads",)] for p, t in facts)
        rep.need(full, "replay:all", "the replay can end before the whole history (all operations reachable from the delegation and revocation heads) was replayed", "all")


def drops(c, W, PLAY):
    """lists of (delegate, delegation) to drop"""
    r = set()
    for tok, item, facts, w in c.ins:
        if tok.k == "token" and item.k == "agg" and item.a[0] == "tup" and any(is_call(x, "remove") and x.a[1][0] is PLAY for x in subs(item)): r.add(tok)
    return r


class D(KCtx):
    def keep(self, p): return p.k == "is"


def dependencies(rep, P):
    """The replay order: an operation's causal dependencies name its proof, what it revokes and the revocations it follows."""
    for ty, want in ((DLG, [("proof",), ("after_revocations",)]), (REV, [("revoke",), ("proof",)])):
        p = ty + "::after"
        if not rep.fn(p): continue
        s = sim.Sim(P, D(P))
        for ret, facts, _ in s.entry(p):
            got = {fields(x)[:1] for x in subs(ret) if x.k == "fld" and fpath(x)[0].k == "param"}
            for w in want:
                none = any(q.k == "is" and fields(q.a[0])[-1:] == w and (q.a[1] == "None") == bool(t) for q, t in facts)
                rep.need(w in got or none, f"after:{ty.split('::')[-1]}:{w[0]}", f"{p} leaves out {w[0]}: the replay may apply an operation before what it depends on", w[0])
    p = "keyhive_core::principal::group::membership_operation::MembershipOperation::after_auth"
    if rep.fn(p):
        s = sim.Sim(P, D(P))
        for ret, facts, _ in s.entry(p):
            var = [q.a[1] for q, t in facts if q.k == "is" and t and q.a[0].k == "param"]
            got = {f for x in subs(ret) if x.k == "fld" for f in fields(x)}
            want = {"Delegation": ("proof", "after_revocations"), "Revocation": ("revoke", "proof")}
            for v in var:
                for f in want.get(v, ()):
                    none = any(q.k == "is" and fields(q.a[0])[-1:] == (f,) and (q.a[1] == "None") == bool(t) for q, t in facts)
                    rep.need(f in got or none, f"after_auth:{v}:{f}", f"the causal dependencies of a {v} leave out its {f}", f)


ADDS = (GS + "::add_delegation", GS + "::add_revocation")


def extend(rep, P):
    """receive_delegation and receive_revocation replay after every extension of the history."""
    for e in (GR + "::receive_delegation", GR + "::receive_revocation"):
        if not rep.fn(e): continue
        c = E2(P)
        s = sim.Sim(P, c)
        n = 0
        for ret, facts, _ in s.entry(e):
            dirty = any(p.k == "dirty" and t for p, t in facts)
            n += 1
            rep.need(not dirty, f"extend:{e.split('::')[-1]}", f"{e} can return after adding to the history without replaying it", e)
        rep.use(s)
        rep.floor(f"extend:{e.split('::')[-1]}:returns", n, 2, "ways to return")
        rep.need(c.adds > 0, f"extend:{e.split('::')[-1]}:adds", f"{e} does not add to the history")
    for k, sink in (("history-delegation", ADDS[0]), ("history-revocation", ADDS[1])):
        inserters.check(rep, P, k, sink, {GR + "::receive_delegation": "replays", GR + "::receive_revocation": "replays"}, 1)


class E2(KCtx):
    def __init__(self, P):
        super().__init__(P)
        self.adds = 0

    def keep(self, p): return p.k == "dirty"

    def opaque(self, path):
        return any(path.startswith(a + "::") or path == a for a in ADDS + (REBUILD,))

    def on_poll(self, s, fn, st, v):
        """[(value, facts)] of awaiting an opaque future, or None"""
        names = [x.a[0] for x in subs(v) if x.k == "call"] + [x.a[1] for x in subs(v) if x.k == "agg" and x.a[0] in ("cor",)]
        if any(n.startswith(ADDS) for n in names):
            self.adds += 1
            r = mk("call", "added", (v,))
            return [(sim.ok(r), st.facts | {(mk("dirty"), True)}), (sim.err(r), st.facts)]
        if any(n.startswith(REBUILD) for n in names):
            return [(sim.UNIT, frozenset(x for x in st.facts if x[0].k != "dirty"))]
        return None


def writers(rep, P):
    """The member map of a group is only written by the replay; elsewhere it is only created empty."""
    import effects
    ws = effects.field_writes(P, GR, ("members", "active_revocations"))
    rep.floor("writers:sites", len(ws), 3, "writes to the member map")
    g = CallGraph(P)
    only = inserters.dominated(P, g, {REBUILD})
    arch = "keyhive_core::keyhive::Keyhive::try_from_archive"
    rep.fn(arch)
    restore = inserters.dominated(P, g, {arch}) | {arch}
    rep.assume.append("an archive passed to try_from_archive was produced by into_archive: its member maps are the replay of its histories")
    for path, kind, fld_, line, how in ws:
        b = inserters.base(path)
        if b == REBUILD or b in only: rep.ok("writers:replay", path); continue
        if b in restore:
            # an archive holds the view its history replayed to, and the restored history is replayed again
            rep.need(any(inserters.base(x) == REBUILD for x in g.reach([arch])), "writers:restore", f"{path} (line {line}) restores the {fld_} of a group and {arch} does not replay its history", path); continue
        if how == "construct-empty" : rep.ok("writers:construct", path); continue
        if b == GR + "::revoke_member" and how == "remove": rep.ok("writers:revoke_member", "removes an entry that holds nothing"); continue
        rep.bad(f"writers:{b}:{fld_}", f"{path} (line {line}) changes {fld_} of a group outside the replay ({how})")
