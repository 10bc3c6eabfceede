"""C05: reported access through nested groups is the best path's weakest link."""
import sim
from sim import mk, subs, show
from kctx import *

TME = GR + "::transitive_members_except"


class M(KCtx):
    tokens = True

    def __init__(self, P):
        super().__init__(P)
        self.canon = {a: b for a, b in self.canon.items() if b != "tm"}
        self.ins, self.ends, self.odd = [], [], []

    def keep(self, p): return p.k in ("is", "eq", "lt", "iterating", "exhausted", "put", "wrote") or p.k == "call"

    def owed(self, p): return p.k == "put"

    def on_token(self, s, st, fn, op, tok, item, line):
        w = f"{fn.file}:{line}"
        if op not in ("ins", "seed"): self.odd.append((tok, f"{op} at {w}")); return
        self.ins.append((tok, item, s.before, w, st.facts))
        st.facts = st.facts | {(mk("put", tok, item), True)}

    def on_elem_end(self, s, e, facts, fn, line): self.ends.append((e, facts, f"{fn.file}:{line}"))

    def on_place(self, s, st, fn, base, key, val):
        self.odd.append((base, f"a value in it is overwritten in {fn.path}"))


def flat(v):
    """the values the minimum of which is v"""
    if v.k == "call" and v.a[0] == "min" or v.k == "min": return frozenset(y for x in (v.a[1] if v.k == "call" else v.a[0] if isinstance(v.a[0], tuple) else v.a) for y in flat(x))
    return frozenset({v})


def replaced(s, t, e, by):
    if t is e: return by
    if e not in set(subs(t)): return t
    if t.k == "fld": return s.field(replaced(s, t.a[0], e, by), *t.a[1:])
    if t.k == "call": return mk("call", t.a[0], tuple(replaced(s, x, e, by) for x in t.a[1]))
    return mk(t.k, *[replaced(s, x, e, by) if isinstance(x, sim.T) else tuple(replaced(s, y, e, by) for y in x) if isinstance(x, tuple) else x for x in t.a])


ADMIN = mk("agg", "adt", ACC, "Admin", ())


def weakest(v, want, facts):
    """v is the least of the values `want` (under the facts)"""
    L = {x for x in flat(v)}
    if len(L) > 1 or L != want: L = {x for x in L if x is not ADMIN} or L
    want = {x for x in want if x is not ADMIN} or want
    if not L <= want: return False
    for x in want - L:
        if not any((mk("lt", x, y), False) in facts or (mk("lt", y, x), True) in facts for y in L): return False
    return True


def run(rep, P, tier):
    """The walk over the membership graph is evaluated as a worklist algorithm over symbolic collections: every value put in the
    result is the minimum of the access values carried by the worklist entry; every entry put in the worklist carries the access of
    the delegation it is made from and the minimum accumulated so far (substituting the entry in the result's value gives the minimum
    over the path); a result is only replaced by a greater one; every entry taken from the worklist is entered or not better than what is there,
    and when entered every delegation of the group or document is queued; the walk ends when the worklist is empty. Every
    other function reporting transitive members or reachability passes this result on unchanged."""
    rep.fn(TME)
    c = M(P)
    s = sim.Sim(P, c, max_states=64)
    rets = s.entry_mut(TME)
    R = {r for r, f, o in rets}
    Q = {e.a[0] for e, f, w in c.ends if e.k == "elem" and e.a[0].k == "token" and any(t is e.a[0] for t, *_ in c.ins)} - R
    rep.need(len(R) == 1 and all(r.k == "token" for r in R), "result", f"the result of {TME} is not one map built in it: {[show(r, 4)[:80] for r in R]}", "one map")
    rep.need(len(Q) == 1, "worklist", f"{TME} has {len(Q)} worklists instead of one", "one worklist")
    if len(R) != 1 or len(Q) != 1: return
    R, Q = next(iter(R)), next(iter(Q))
    e = mk("elem", Q)
    for tok, what in c.odd:
        if tok is R or tok is Q or any(y is R or y is Q for y in subs(tok)): rep.bad("only-added", f"{TME}: something is taken out of the result or the worklist: {what}")
    rep.ok("only-added")
    Vs = set()
    nr = nq = 0
    ent = []
    for tok, item, facts, w, after in c.ins:
        if tok is not R: continue
        nr += 1
        ok = item is not None and item.k == "agg" and len(item.a[3]) == 2 and item.a[3][1].k == "agg" and len(item.a[3][1].a[3]) == 2
        if not rep.need(ok, "entry-shape", f"{w}: cannot see what is put in the result ({show(item, 5)[:200]})"): continue
        k, (a, v) = item.a[3][0], item.a[3][1].a[3]
        rep.need(is_call(k, "ident") and k.a[1][0] is a, "entry-key", f"{w}: an agent is entered under another's id ({show(k, 5)[:120]})", "id of the agent")
        rep.need(fpath(a)[0] is e and len(fields(a)) >= 1, "entry-agent", f"{w}: the agent entered is not the one taken from the worklist ({show(a, 5)[:120]})", "agent of the worklist entry")
        slot = mk("fld", mk("call", "get", (R, k)), sim.OPT, "0", "Some")
        old = s.field(slot, "", "1")
        none = any((p.k == "is" and p.a[0] is mk("call", "get", (R, k)) and t == (p.a[1] == "None")) for p, t in facts) or (mk("call", "contains_key", (R, k)), False) in facts
        better = any(p.k == "lt" and t and p.a[0].k == "fld" and p.a[0].a[0] is slot and p.a[1] is v or p.k == "lt" and not t and p.a[1].k == "fld" and p.a[1].a[0] is slot and p.a[0] is v for p, t in facts)
        rep.need(none or better, "only-better", f"{w}: an entry of the result can be replaced by one with less access", "absent or less before")
        Vs.add((v, facts))
        ent.append((item, a))
    rep.floor("entries", nr, 1, "paths on which a member is put in the result")
    Lv = {x for v, f in Vs for x in flat(v)}
    for v, f in Vs:
        rep.need(weakest(v, Lv, f), "weakest-link", f"the access entered in the result can be greater than one of the access values on the way: {show(v, 5)[:160]} of {[show(x, 4)[:60] for x in Lv]}", show(v, 4)[:100])
    rep.need(all(fpath(x)[0] is e for x in Lv), "from-path", f"the access entered does not come from the worklist entry: {[show(x, 4)[:80] for x in Lv]}", "fields of the worklist entry")
    agents = {a for i, a in ent}
    rep.need(len(agents) == 1, "one-agent", "the agent entered differs between paths")
    if len(agents) != 1 or not Lv: return
    A = next(iter(agents))
    # what is queued
    queued = {}
    nseed = nrec = 0
    for tok, item, facts, w, after in c.ins:
        if tok is not Q: continue
        nq += 1
        rec = any((mk("iterating", x), True) in facts for x in (e,))
        a = replaced(s, A, e, item)
        if not rep.need(a.k == "fld" and a.a[2] == "delegate" and e not in {a}, "queued-agent", f"{w}: what is queued is not the delegate of a delegation: {show(a, 5)[:160]}", show(a, 4)[:120]): continue
        X = a.a[0]
        cans = s.field(X, a.a[1], "can")
        leaves = {y for x in Lv for y in flat(replaced(s, x, e, item))}
        want = {cans} | (Lv if rec else set())
        rest = {x for x in leaves if x is not ADMIN}
        bare = {x for x in rest if x not in want}
        ok = not bare and all(x in rest or any((mk("lt", x, y), False) in facts or (mk("lt", y, x), True) in facts for y in rest) for x in want)
        rep.need(ok, "link:recursive" if rec else "link:first", f"{w}: the access carried along a path is not the least of its links: it carries {sorted(show(x, 5)[:110] for x in rest)}, and its links are {sorted(show(x, 5)[:110] for x in want)}",
                 f"{sorted(show(x, 4)[:90] for x in rest)}")
        d = inner(X)
        src = origin(d)
        if rec:
            nrec += 1
            g = src is not None and src[0]
            rep.need(src is not None and group_of(g, A), "link:of-group", f"{w}: the delegation followed is not a membership of the group or document just entered: {show(d, 6)[:200]}", show(d, 4)[:120])
        else:
            nseed += 1
            sel = best(s, facts, d)
            rep.need(sel is not None, "link:of-self", f"{w}: the delegation started from is not the best of the group's own memberships: {show(d, 6)[:240]}", "the member's best delegation")
    rep.floor("starts", nseed, 1, "paths on which a direct member is queued")
    rep.floor("follows", nrec, 2, "paths on which a nested member is queued (group, document)")
    # everything is done with what is taken out, and everything is queued
    ne = 0
    kinds = {"Group": 0, "Document": 0}
    skip = {"id": 0, "except": 0}
    for x, facts, w in c.ends:
        if x is e:
            ne += 1
            put = [p for p, t in facts if p.k == "put" and t and p.a[0] is R and p.a[1].a[3][0].a[1][0] is A]
            ida = [p for p, t in facts if t and p.k == "eq" and any(is_call(y, "ident") and y.a[1][0] is A for y in p.a) and any(y.k == "param" and y.a[2] == "except" or own_id(y) for y in p.a)]
            known = [p for p, t in facts if notless(p, t, R, Vs)]
            if not rep.need(put or ida or known, "entered", f"{w}: a path to a member can be dropped without it being in the result with at least that access: {[show(p, 5)[:90] for p, t in facts if p.k in ('eq', 'lt', 'is') and e in subs(p)][:6]}", "entered, or known with at least the access"): continue
            if put and not ida:
                for k in kinds:
                    isk = mk("is", A, k)
                    v = [t for p, t in facts if p.k == "is" and p.a[0] is A and p.a[1] == k or p.k == "is" and p is isk]
                    other = any(t and p.k == "is" and p.a[0] is A and p.a[1] != k for p, t in facts)
                    if other or v == [False]: continue
                    done = any(whole(p, t) and group_of(p.a[0], A, k) for p, t in facts)
                    rep.need(done, f"walks:{k}", f"{w}: the members of a {k} that was entered are not all followed", "memberships walked to the end")
                    kinds[k] += done
        elif x.k == "elem" and any(y is A for y in subs(x)) and x.a[0].k == "val":
            rep.need(any(p.k == "put" and t and p.a[0] is Q and inner(replaced(s, A, e, p.a[1]).a[0]) is x for p, t in facts if p.k == "put" and t and p.a[0] is Q), "queues:nested", f"{w}: a delegation of a nested group can be passed over", "each delegation queued")
        elif x.k == "val" and any(y is A for y in subs(x)):
            rep.need(any(whole(p, t, x) for p, t in facts), "walks:each", f"{w}: not all delegations of a member of a nested group are followed", "all delegations of a member")
        elif x.k in ("key", "val", "elem") and not any(y is A or y is Q for y in subs(x)) and any(y.k == "fld" and y.a[2] == "members" for y in subs(x)):
            rep.need(any(p.k == "put" and t and p.a[0] is Q for p, t in facts) or x.k != "key" and any(whole(p, t, x) for p, t in facts), "queues:direct", f"{w}: a direct member can be passed over: {show(x, 4)}", "each member queued")
    rep.floor("taken", ne, 4, "paths on which an entry of the worklist is done with")
    for k, n in kinds.items(): rep.floor(f"walked:{k}", n, 1, f"paths walking the members of a {k}")
    rep.expect("queues:nested", "queues:direct", "link:recursive", "link:first")
    for r, facts, o in rets:
        rep.need((mk("exhausted", Q), True) in facts or (mk("call", "is_empty", (Q,)), True) in facts, "ends:worklist", f"{TME} can return with paths still to be followed", "worklist exhausted")
        rep.need(any(whole(p, t) and not any(y is A for y in subs(p)) and any(y.k == "fld" and y.a[2] == "members" for y in subs(p)) for p, t in facts), "ends:members", f"{TME} can return without having started from every member", "members exhausted")
    rep.use(s)
    order(rep, P)
    passing(rep, P)
    reports(rep, P)


def inner(x):
    """the signed delegation a payload belongs to"""
    while x.k == "fld" and x.a[2] == "payload": x = x.a[0]
    return x


def origin(d):
    """(the members map d is taken from,) for an element of a value of it"""
    x = d
    while x.k in ("elem", "val", "fld", "call"):
        if x.k == "fld" and x.a[2] == "members": return (x,)
        if x.k == "call":
            if not x.a[1]: return None
            if not (x.a[0].endswith(("::values", "::iter", "::into_values")) or x.a[0] == "get"): return None
            x = x.a[1][0]
        else: x = x.a[0]
    return None


def group_of(c, A, kind=None):
    """c is (made from) the members map of the group or document A"""
    x = next((y for y in subs(c) if y.k == "fld" and y.a[2] == "members"), None)
    if x is None: return False
    b, f = fpath(x)
    y = x
    while y.k == "fld":
        if y.a[0] is A and y.a[2] == "1":
            return (kind is None or y.a[3] == kind) and f[-1] == "members"
        y = y.a[0]
    return False


SHORTER = {"take", "skip", "step_by", "skip_while", "take_while", "filter", "filter_map", "nth", "map_while", "scan"}


def whole(p, t, x=None):
    """everything there was (made from x) has been walked"""
    return t and p.k == "exhausted" and (x is None or x in set(subs(p))) and not any(y.k == "call" and y.a[0].rsplit("::", 1)[-1] in SHORTER for y in subs(p))


def own_id(y):
    b, f = fpath(y)
    return b.k == "param" and b.a[1] == 0 and f and f[-1] in ("id", "group_id")


def notless(p, t, R, Vs):
    """existing >= the access found now"""
    if p.k != "lt": return False
    for v, f in Vs:
        if not t and p.a[1] is v and entry_of(p.a[0], R): return True
        if t and p.a[0] is v and entry_of(p.a[1], R): return True
    return False


def entry_of(x, R):
    return x.k == "fld" and x.a[0].k == "fld" and x.a[0].a[0].k == "call" and x.a[0].a[0].a[0] == "get" and x.a[0].a[0].a[1][0] is R


def best(s, facts, d):
    """d is the greatest delegation by access (or each) of one member's delegations in self.members"""
    if d.k == "fld" and d.a[2] == "0" and d.a[0].k == "call" and d.a[0].a[0].rsplit("::", 1)[-1] in ("max_by", "max_by_key"):
        n = d.a[0].a[0].rsplit("::", 1)[-1]
        coll, clo = d.a[0].a[1]
        if clo.k != "agg": return None
        x, y = mk("named", "first"), mk("named", "second")
        fn = s.P.fns[TME]
        outs = s.call_closure(fn, sim.State({}, frozenset()), clo, [x, y] if n == "max_by" else [x])
        for v, st in outs:
            if n == "max_by":
                if not (v.k == "cmp"): return None
                p, q = v.a
                if fields(p)[-1:] != ("can",) or fields(q) != fields(p) or fpath(p)[0] is not x or fpath(q)[0] is not y: return None
            elif fields(v)[-1:] != ("can",) or fpath(v)[0] is not x: return None
        if not outs: return None
        d = mk("elem", coll)
    elif d.k != "elem" or (mk("iterating", d), True) not in facts: return None
    base = [y for y in subs(d) if y.k == "fld" and y.a[2] == "members"]
    if len(base) != 1 or fpath(base[0])[0].k != "param": return None
    return d


def order(rep, P):
    a = P.adts.get(ACC)
    names = [v[0] for v in a["variants"]] if a else []
    rep.need(names == ["Relay", "Read", "Edit", "Admin"], "order", f"the access levels are {names}: their order is not the one the reports rely on", "Relay < Read < Edit < Admin")
    derived = [f for f in P.fns if f.startswith(f"<{ACC} as core::cmp::") and f.endswith(("::cmp", "::partial_cmp"))]
    for f in derived:
        rep.need(P.fns[f].derived, "order:derived", f"{f} is not the order of the variants", "derived")
    for n, least in (("is_reader", "Read"), ("is_editor", "Edit")):
        rep.fn(f"{ACC}::{n}")
        for i, v in enumerate(names):
            outs = sim.Sim(P, KCtx(P)).entry(f"{ACC}::{n}", args=[mk("agg", "adt", ACC, v, ())])
            got = {x for x, *_ in outs}
            rep.need(got == {sim.b(i >= names.index(least))} if least in names else False, f"level:{n}:{v}", f"{ACC}::{n}({v}) is {[show(x, 3) for x in got]}", f"{n}({v})")


class B(KCtx):
    """tm(g, except) is the result of the walk"""
    tokens = True
    PASS = [GR + "::transitive_members", DOC + "::transitive_members", KC + "principal::membered::Membered::transitive_members",
            KC + "principal::membered::Membered::transitive_members_except", KH + "::reachable_members"]
    REPORT = [KH + "::docs_reachable_by_agent", KH + "::membered_reachable_by_agent", KH + "::reachable_docs"]

    def __init__(self, P):
        super().__init__(P)
        self.canon = {a: b for a, b in self.canon.items() if b != "tm"}
        self.canon[TME] = "tm"
        self.ins, self.ends, self.odd = [], [], []

    def keep(self, p): return p.k in ("is", "eq", "lt", "iterating", "exhausted", "put") or p.k == "call"

    def owed(self, p): return p.k == "put"

    def on_token(self, s, st, fn, op, tok, item, line):
        if op not in ("ins", "seed"): self.odd.append((tok, f"{op} ({fn.file}:{line})")); return
        self.ins.append((tok, item, st.facts, f"{fn.file}:{line}"))
        st.facts = st.facts | {(mk("put", tok, item), True)}

    def on_elem_end(self, s, e, facts, fn, line): self.ends.append((e, facts, f"{fn.file}:{line}"))


def tm_of(x):
    return x.a[1] if x.k == "call" and x.a[0] in ("tm", "tm.await") and len(x.a[1]) == 2 else None


def passing(rep, P):
    """the public forms of the walk give its result unchanged"""
    for n in B.PASS:
        if not rep.fn(n): continue
        short = n[len(KC):]
        c = B(P)
        s = sim.Sim(P, c)
        for r, facts, o in s.entry_mut(n):
            t = tm_of(r)
            if t is None:
                empty = r.k == "token" and not any(x[0] is r for x in c.ins) or r.k == "coll" and not r.a[1]
                own = any(t and p.k == "eq" and any(x.k == "param" and x.a[2] == "except" for x in p.a) for p, t in facts)
                rep.need(empty and own, f"passes:{short}", f"{n} can return something else than the walk's result: {show(r, 5)[:200]}", "empty for the excepted one itself")
                continue
            g, ex = t
            b, f = fpath(g)
            while f and f[-1] == "group": f = f[:-1]
            subj = b.k == "param" and (b.a[1] == 0 and b.a[2] == "self" or b.a[2] == "membered") and f in ((), ("1",))
            exok = ex.k == "param" and ex.a[2] == "except" or "except" not in P.fns[n].names.values() and fpath(ex)[0] is b and f == fields(ex)[:len(f)] and fields(ex)[-1] in ("id", "group_id", "doc_id")
            rep.need(subj and exok, f"passes:{short}", f"{n} reports the members of something else: {show(r, 5)[:200]}", show(r, 5)[:120])
        rep.use(s)


def reports(rep, P):
    """what is reported reachable for an agent is what the walk gives for that agent, placed beside the thing walked"""
    for n in B.REPORT:
        if not rep.fn(n): continue
        short = n[len(KC):]
        c = B(P)
        s = sim.Sim(P, c)
        rets = s.entry_mut(n)
        toks = {r for r, f, o in rets}
        if not rep.need(len(toks) == 1 and all(r.k == "token" for r in toks), f"report:{short}", f"{n} does not return one collection built in it"): continue
        R = next(iter(toks))
        k = 0
        for tok, item, facts, w in c.ins:
            if tok is not R: continue
            acc = [x for x in subs(item) if x.k == "fld" and x.a[2] == "1" and x.a[0].k == "fld" and x.a[0].a[0].k == "call" and x.a[0].a[0].a[0] == "get" and tm_of(x.a[0].a[0].a[1][0])]
            if not rep.need(len(acc) == 1, f"report:{short}:access", f"{w}: the access reported is not the walk's: {show(item, 7)[:300]}"): continue
            g, ex = tm_of(acc[0].a[0].a[0].a[1][0])
            key = acc[0].a[0].a[0].a[1][1]
            rep.need(is_call(key, "ident") and (key.a[1][0].k == "param" and key.a[1][0].a[2] == "agent" or any(fields(y)[-1:] == ("active",) for y in subs(key))), f"report:{short}:agent", f"{w}: the access reported is someone else's: {show(key, 5)[:160]}", show(key, 4)[:100])
            d = g.a[0] if g.k == "fld" and g.a[2] == "group" else g
            rest = [x for x in subs(item) if x.k in ("val", "elem", "key") and x not in set(subs(acc[0]))]
            direct = placed(item, acc[0])
            rep.need(not rest and direct and all(x is d for x in direct), f"report:{short}:same", f"{w}: the access of one is reported for another: {show(item, 7)[:300]}", show(d, 4)[:100])
            rep.need(d in set(subs(ex)), f"report:{short}:whole", f"{w}: a member of the walk is left out: {show(ex, 5)[:120]}", "only itself excepted")
            k += 1
        rep.floor(f"report:{short}", k, 1, "reported entries")
        kinds = {fields(y)[-1] for e, f, w in c.ends for y in subs(e) if y.k == "fld"} & {"docs", "groups"}
        want = {"docs", "groups"} if "membered" in n else {"docs"}
        rep.need(want <= kinds, f"report:{short}:all", f"{n} only looks at {sorted(kinds)}")
        for e, facts, w in c.ends:
            if e.k not in ("val", "elem") or not any(y.k == "fld" and y.a[2] in want for y in subs(e)): continue
            put = any(t and p.k == "put" and p.a[0] is R and e in set(subs(p.a[1])) for p, t in facts)
            none = any(p.k == "is" and t == (p.a[1] == "None") and p.a[0].k == "call" and p.a[0].a[0] == "get" and tm_of(p.a[0].a[1][0]) and e in set(subs(p.a[0])) for p, t in facts)
            rep.need(put or none, f"report:{short}:each", f"{w}: something the agent can reach can be left out", "reported or not reachable")
        for r, facts, o in rets:
            for k in want:
                rep.need(any(t and p.k == "exhausted" and any(y.k == "fld" and y.a[2] == k for y in subs(p)) for p, t in facts), f"report:{short}:ends", f"{n} can return without having looked at all {k}")
        rep.use(s)


def placed(item, acc):
    """the things other than the access the item is made of, down to what they were made from"""
    out = set()

    def go(x):
        if x is acc: return
        if x.k == "agg":
            for y in x.a[3]: go(y)
            return
        b, f = fpath(x)
        out.add(b)
    go(item)
    return out
