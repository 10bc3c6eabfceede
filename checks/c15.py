"""C15: an operation that cannot be applied yet is retained and tried again until it is applied."""
import re
import sim
from sim import mk, subs, show
from kctx import *
import inserters

ING, REC = KH + "::ingest_unsorted_static_events", KH + "::receive_static_event"
SE = KC + "event::static_event::StaticEvent"
EV = mk("elem", mk("named", "events"))
LEN, VOID = "size", "void"
SHRINK = {"clear", "drain", "pop", "remove", "swap_remove", "truncate", "split_off", "set_len", "dedup", "dedup_by", "dedup_by_key", "retain_mut", "extract_if", "take", "replace", "swap"}
base = inserters.base


def event(x):
    """the term is (made of) an event, not just its hash"""
    if x.k == "call" and x.a[0].endswith("Digest::hash"): return False
    if x is EV: return True
    if x.k == "elem": return src(x.a[0])
    if x.k in ("key", "val"): return event(x.a[0])
    return any(event(y) for y in sim.kids(x))


def src(x):
    if x.k == "param": return x.a[2] == "events"
    if x.k == "fld": return len(x.a) > 2 and x.a[2] == "pending_events"
    if x.k == "coll": return any(event(y) for y in x.a[1]) or x.a[0] is not None and src(x.a[0])
    return event(x)


def pending(x):
    if x.k == "coll" and x.a[0] is not None: return pending(x.a[0])
    return x.k == "fld" and len(x.a) > 2 and x.a[2] == "pending_events"


def rewrite(x):
    if x is EV: return x
    if x.k == "elem" and src(x.a[0]): return EV
    if x.k in ("key", "val") and x.a[0].k in ("coll", "call", "elem") and event(x): return EV
    return None


class M(KCtx):
    """All events are one symbol; what happens to it on each path is tracked."""
    mutates = True
    items_end = True
    sets = True
    strict = True

    def __init__(self, P):
        super().__init__(P)
        self.filt = []
        self.ends, self.retains, self.gaps, self.places, self.tries, self.moves = [], [], [], {}, set(), set()

    def opaque(self, p): return p == REC or p.endswith("Digest::hash")

    def keep(self, p): return p.k in ("kept", "good", "tried", "dry", "fresh", "gap", "extended", "passed", "exhausted") or event(p) or any(x.k == "call" and x.a[0] in (LEN, "error") for x in subs(p))

    def canon_facts(self, facts, fn):
        facts = super().canon_facts(facts, fn)
        now = any(p.k == "iterating" and event(p.a[0]) for p, t in facts)
        gone = [x for x in facts if x[0].k == "exhausted" and not pending(x[0].a[0]) and not any(pending(y) for y in subs(x[0]))
                or not now and (x[0].k in ("kept", "good") and EV in subs(x[0]) or x[0].k == "is" and EV in subs(x[0]))]
        return facts.difference(gone) if gone else facts

    def owed(self, p): return p.k in ("dry", "fresh", "gap", "extended")

    def one(self, x):
        """the term with every event replaced by the one symbol"""
        if not event(x): return x
        if x.k == "phi" and all(event(y) for y in x.a[0]): return EV
        r = rewrite(x)
        if r is not None: return r
        if x.k == "agg": return mk("agg", *x.a[:3], tuple(self.hashes(y) for y in x.a[3]))
        return EV

    def hashes(self, x):
        if x.k == "call" and x.a[0].endswith("Digest::hash"): return mk("call", x.a[0], tuple(self.one(y) for y in x.a[1]))
        return self.one(x)

    def on_store(self, s, facts, v): return self.one(v)

    def place(self, fn, x): return mk("place", fn.path, repr(x.a)) if x.k == "mref" else None

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        n = path.rsplit("::", 1)[-1]
        a = tuple(s.strip_mref(fn, st.env, x) for x in args)
        f = st.facts
        if path == REC or res == REC:
            self.tries.add(self.one(a[1]) is EV)
            f = frozenset(x for x in f if not any(y.k == "call" and y.a[0] == LEN for y in subs(x[0])) and x[0].k not in ("kept", "good", "extended") and not any(y.k == "call" and y.a[0] == "error" for y in subs(x[0])))
            e = mk("call", "error", (EV,))
            if (mk("fresh"), True) in f: f = f - {(mk("fresh"), True)} | {(mk("dry"), True)}
            return [(sim.ok(sim.UNIT), frozenset(x for x in f if x[0].k != "dry") | {(mk("good", EV), True), (mk("tried"), True)}),
                    (sim.err(e), f | {(mk("tried"), True)})]
        if n == "into_iter" and any(SE in t for t in ta[:1]) and "Vec" in ta[0] and self.has(a[0]):
            st.facts = f | {(mk("fresh"), True)}
        if n == "lock" and "utex" in path and (mk("gap"), True) in f: self.gaps.append(f"{fn.file}:{line}")
        if n == "collect" and any(SE in t for t in ta) or n in sim.EXT: self.moves.add((fn.path, line))
        coll = sim.COLLTY.search(path) or path.startswith(("core::iter::traits::collect::Extend", "[T]"))
        if not coll and n != "or_insert": return None
        if n in ("len", "is_empty") and a and (self.has(a[0]) or nothing(a[0]) and any(SE in t for t in ta)) and len(a) == 1:
            pl = self.place(fn, s.raw[0]) or a[0]
            if nothing(a[0]): return [(mk("const", "0", "usize") if n == "len" else sim.TRUE, f | {(mk("eq", mk("call", LEN, (pl,)), mk("const", "0", "usize")), True)})]
            sz = mk("call", LEN, (mk("named", fn.path), mk("const", str(bb), "")))
            return [(sz if n == "len" else sim.mk_eq(sz, mk("const", "0", "usize")), f)]
        if n in sim.PUSH and len(a) > 1 or n == "or_insert":
            v = a[-1]
            if event(v):
                if n == "or_insert": to = mk("named", "elsewhere")
                else: to = mk("named", "pending") if a[0] is not None and pending(a[0]) else self.place(fn, s.raw[0])
                if to is None: to = mk("named", "elsewhere")
                st.facts = f | {(mk("kept", self.one(v) if not any(pending(y) for y in subs(v)) else v, to), True)}
                if (mk("tried"), True) in f and to.k == "place": self.places.setdefault(to, line)
        if n in sim.EXT and len(a) > 1:
            if pending(a[0]):
                if self.has(a[1]) and whole(a[1]): st.facts = frozenset(x for x in f if x[0].k != "gap") | {(mk("extended"), True)}
            elif pending(a[1]) and whole(a[1]): st.facts = f | {(mk("kept", mk("elem", a[1]), mk("named", "elsewhere")), True), (mk("exhausted", a[1]), True)}
        if n == "retain" and a and pending(a[0]):
            self.retains.append((f, self.spares(s, st, fn, args[1]), f"{fn.path} ({fn.file}:{line})"))
            return [(sim.UNIT, f | {(mk("gap"), True)})]
        return None

    def has(self, x):
        return any(event(y) or y.k == "coll" and src(y) for y in subs(x))

    def spares(self, s, st, fn, clo):
        """the closure only rejects an entry whose hash is among those of the snapshot that was replayed"""
        e = mk("elem", mk("named", "pending now"))
        try: outs = s.call_closure(fn, sim.State(dict(st.env), st.facts), clo, [e])
        except Exception as x: return f"not understood ({type(x).__name__})"
        if not outs: return "not understood"
        for v, s2 in outs:
            if v is sim.TRUE: continue
            if v is not sim.FALSE:
                if v.k == "not": got = [v.a[0]]
                else: return f"it keeps an entry depending on {show(v, 4)[:120]}"
            else: got = [q for q, t in s2.facts if t]
            if not any(replayed(s, fn, s2, q, e) for q in got): return "it also rejects entries that were not replayed"
        return None

    def on_elem_end(self, s, e, facts, fn, line):
        self.ends.append((fn.path, line, e, facts))

    def on_filtered(self, s, e, facts, fn):
        if event(e) or e is EV: self.filt.append((fn.path, e, facts))

    def on_short(self, s, coll, e, fn, how):
        if event(e) or e is EV: self.filt.append((f"{how} in {fn.path}", e, frozenset()))

    def walked(self, facts, coll, fn, line):
        return frozenset({(mk("passed", fn.path, str(line)), True)})


def nothing(x):
    while x.k == "call" and len(x.a[1]) == 1: x = x.a[1][0]
    return x.k == "coll" and x.a[0] is None and not x.a[1]


def whole(x):
    """nothing of the collection is left out"""
    while x.k == "call" and x.a[1]:
        if x.a[0].rsplit("::", 1)[-1] in ("filter", "filter_map", "flat_map", "skip", "take", "step_by", "skip_while", "take_while", "map_while", "nth", "last", "find", "drain", "split_off"): return False
        x = x.a[1][0]
    return True


def replayed(s, fn, st, q, e):
    """q: the set of the hashes of the snapshot contains the hash of e"""
    if not (q.k == "call" and q.a[0].rsplit("::", 1)[-1] == "contains" and len(q.a[1]) == 2): return False
    ks, k = q.a[1]
    k = s.strip_mref(fn, st.env, k)
    if not (k.k == "call" and k.a[0].endswith("Digest::hash") and e in subs(k)): return False
    xs = [x for x, _ in s.elems(fn, sim.State(dict(st.env), st.facts), s.strip_mref(fn, st.env, ks))]
    ks = s.strip_mref(fn, st.env, ks)
    if ks.k == "phi" and not xs: xs = [y for x in ks.a[0] if x.k == "coll" for y in x.a[1]]
    if ks.k == "coll" and not ks.a[1] and ks.a[0] is None: return True      # empty: rejects nothing
    return bool(xs) and all(x.k == "call" and x.a[0].endswith("Digest::hash") and any(y is EV or y.k == "elem" and src(y.a[0]) for y in subs(x)) for x in xs)


def permanent(P, adt, var):
    """the payload of the variant can say nothing about something missing"""
    a = P.adts.get(adt)
    v = next((v for v in a["variants"] if v[0] == var), None) if a else None
    if v is None: return f"unknown error class {var}"
    seen, todo = set(), [f[1] for f in v[1]]
    if not todo: return None
    while todo:
        t = todo.pop()
        for n in re.findall(r"[a-z_0-9]+(?:::[A-Za-z_0-9]+)+", t):
            if n in seen or n not in P.adts: continue
            seen.add(n)
            if n.rsplit("::", 1)[-1].startswith("Missing"): return f"{var} can mean {n}"
            for w in P.adts[n]["variants"]:
                if P.adts[n]["enum"] and re.match(r"Missing|Unknown|OutOfOrder|Unexpected|NotFound|No[A-Z]", w[0]) and n.startswith(("keyhive", "beekem")): return f"{var} can mean {n}::{w[0]}"
                todo.extend(f[1] for f in w[1])
    return None


def ingest(rep, P):
    if not rep.fn(ING) or not rep.fn(REC): return
    rec_err = KC + "keyhive::ReceiveStaticEventError"
    rep.need(rec_err in P.adts, "anchor:error", rec_err + " is missing")
    c = M(P)
    s = sim.Sim(P, c)
    outs = s.entry_mut(ING)
    rep.use(s)
    rep.need(True in c.tries, "ingest:tries", f"{ING} does not try events with receive_static_event", "every event is tried by receive_static_event")
    rep.floor("ingest:returns", len(outs), 2, "returns of the ingestion")
    loops, trying, nend = {}, set(), 0
    for fp, line, e, facts in c.ends:
        if not (event(e) or e is EV): continue
        w = f"{fp} (line {line})"
        nend += 1
        if (fp, line) in c.moves: continue
        fs = {(q, t) for q, t in facts}
        got = [q for q, t in facts if t and q.k == "kept" and (q.a[0] is c.one(e) or e in subs(q.a[0]) or EV in subs(q.a[0]) and not pending_elem(e))]
        good = (mk("good", EV), True) in fs
        bad = [q.a[1] for q, t in facts if t and q.k == "is" and q.a[0].k == "call" and q.a[0].a[0] == "error"]
        left = "no"
        if (mk("tried"), True) in fs: trying.add((fp, str(line)))
        loops.setdefault((fp, str(line)), []).append(any(q.a[1] is mk("named", "pending") for q in got))
        if good: rep.ok("ingest:applied", "an event leaves the pass when it was applied")
        elif got: rep.ok("ingest:kept", "an event that could not be applied is kept for the next pass")
        else:
            why = [permanent(P, rec_err, b) for b in bad]
            if why and None in why: rep.ok("ingest:unrecoverable", f"dropped for an error that more operations cannot cure ({bad})")
            else: rep.bad("ingest:kept", f"{w}: an event can leave the loop without having been applied or kept" + (f": {why[0]}" if why else ""))
    for w, e, facts in c.filt:
        again = any(q.k == "call" and q.a[0].rsplit("::", 1)[-1] in ("contains", "contains_key", "insert", "set_insert") and any(y.k == "call" and y.a[0].endswith("Digest::hash") for y in subs(q)) for q, t in facts)
        rep.need((mk("good", EV), True) in set(facts) or any(q.k == "kept" for q, t in facts) or again, "ingest:kept", f"{w}: events are left out by a filter", "events are only left out when another copy of them is kept or they were applied")
    rep.floor("ingest:events", nend, 3, "ways an event leaves a loop")
    over = lambda q: q.k == "exhausted" and whole(q.a[0]) and any(pending(y) for y in subs(q.a[0])) and not any(y.k == "elem" for y in subs(q.a[0]))
    for ret, facts, o in outs:
        fs = set(facts)
        rep.need(any(t and over(q) for q, t in facts), "ingest:snapshot", f"{ING} can return without having gone through all pending events", "every pending event takes part in each ingestion")
        ext = (mk("extended"), True) in fs or any(t and q.k == "passed" and loops.get(q.a) and all(loops[q.a]) for q, t in facts)
        void = [q for q, t in facts if t and empty(q)]
        if not any(q.k == "tried" for q, t in facts): rep.ok("ingest:nothing", "nothing to ingest"); continue
        rep.need(len(c.places) <= len(void) + ext and (ext or void), "ingest:return",
                 f"{ING} can return while events that could not be applied are neither empty nor added to the pending events", "unapplied events are pending at every return")
        if ext and not void:
            dry = (mk("dry"), True) in fs or any(t and q.k == "eq" and sum(1 for y in q.a if y.k == "call" and y.a[0] == LEN) == 2 for q, t in facts) or any(q.k == "eq" and t and len([y for y in subs(q) if y.k == "call" and y.a[0] == LEN]) >= 2 for q, t in facts)
            rep.need(dry, "ingest:fixpoint", f"{ING} can give up although an event was applied in the last pass", "it gives up only after a pass that applied nothing")
    for f, why, w in c.retains:
        rep.need(why is None, "ingest:remove", f"{w}: pending events are removed: {why}", "only events replayed in this ingestion are removed from the pending ones")
        rep.need(any(q.k == "passed" and t and q.a in trying for q, t in f), "ingest:remove-late", f"{w}: pending events are removed before all of them were tried again", "removal follows the last pass")
    rep.need(not c.gaps, "ingest:gap", f"{ING} lets go of the pending events between removing the replayed ones and adding the unapplied ones ({sorted(set(c.gaps))[:3]})", "removal and re-adding happen under one lock")
    return s.visited_fns


def pending_elem(e): return e.k == "elem" and pending(e.a[0])


def empty(q):
    return q.k == "eq" and any(x.k == "call" and x.a[0] == LEN for x in q.a) and any(x.k == "const" and x.a[0] in ("0", 0) for x in q.a)


def writers(rep, P, seen):
    """only growing changes elsewhere; no wholesale replacement anywhere"""
    guard = lambda t: "Guard<alloc::vec::Vec<alloc::rcs::arc::Arc<" + SE in t
    own = lambda t: t.startswith(("alloc::rcs::arc::Arc<" + SE, "alloc::vec::Vec<alloc::rcs::arc::Arc<" + SE))
    n = 0
    for f in P.fns.values():
        muts = set()
        calls = [(blk[1], P.callee(f, blk[1][1])) for blk in f.blocks if blk[1][0] == "call"]
        for t, c in calls:
            if c and c[0].endswith("DerefMut::deref_mut") and any(guard(x) for x in c[3]):
                if len(t[3]) == 1: muts.add(t[3][0])
        if not muts: continue
        n += 1
        rep.analysed.setdefault("functions that change the pending events", []).append(f.path)
        for t, c in calls:
            if not c or not any(own(x) for x in c[3]): continue
            m = c[0].rsplit("::", 1)[-1]
            w = f"{f.path} ({f.file}:{t[5]})"
            if m in SHRINK and ("Vec" in c[0] or "mem::" in c[0]): rep.bad("pending:shrink", f"{w}: pending events are removed by {m}")
            if m == "retain" and f.path not in seen: rep.bad("pending:shrink", f"{w}: pending events are removed outside the ingestion")
        for blk in f.blocks:
            for st in blk[0]:
                if st[0] == "a" and st[1][0] in muts and len(st[1]) == 2 and st[1][1][0] == "d": rep.bad("pending:assign", f"{f.path} ({f.file}:{st[3]}): the pending events are replaced")
    rep.ok("pending:shrink", f"{n} functions change the pending events")
    rep.ok("pending:assign")
    rep.floor("pending:writers", n, 1, "functions that change the pending events")


PS = KC + "principal::individual::state::PrekeyState"
SINKS = {     # kind of event -> functions of the state that take it in (decided by C01, C03, C04, C10, C19)
    "delegation": (GS + "::add_delegation", GS + "::new"),
    "revocation": (GS + "::add_revocation",),
    "key-tree operation": ("beekem::cgka::Cgka::merge_concurrent_operation", "beekem::cgka::Cgka::new_from_init_add"),
    "prekey operation": (PS + "::insert_op", PS + "::new")}
KINDS = {"Delegated": "delegation", "Revoked": "revocation", "CgkaOperation": "key-tree operation",
         "PrekeysExpanded": "prekey operation", "PrekeyRotated": "prekey operation"}


class A(KCtx):
    """con: what has been taken in whenever a function succeeds"""
    mutates = True

    def __init__(self, P, me, con, small):
        super().__init__(P)
        self.me, self.con, self.small = me, con, small

    def opaque(self, p):
        b = base(p)
        return b != self.me and (b in self.con or b.startswith((KC, "beekem")) and b in self.P.fns and b not in self.small)

    def keep(self, p):
        return p.k in ("taken", "eq", "known") or known(p) or p.k == "is" and p.a[0].k == "param"

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        b = base(res)
        if b in self.con and b != self.me:
            r = mk("call", b, tuple(s.strip_mref(fn, st.env, x) for x in args))
            mine = any(x.k == "param" and x.a[2] != "self" for y in r.a[1] for x in subs(y))     # something it was given, not something of its own
            f = st.facts | {(mk("taken", k), True) for k in self.con[b] if mine}
            if self.con[b] and fallible(s.P, b): return [(sim.ok(mk("call", "result", (r,))), f), (sim.err(mk("call", "refused", (r,))), st.facts)]
            return [(r, f)]
        return None


def fallible(P, b):
    """the function (or the body of the async function) returns a Result"""
    fs = [f for f in P.fns.values() if base(f.path) == b]
    return any(blk_ret(f) for f in fs)


def blk_ret(f):
    return any(s[0] == "a" and s[1] == [0] and s[2][0] == "agg" and s[2][1] == "adt" and f.strs[s[2][2]] == sim.RES for blk in f.blocks for s in blk[0]) or \
        f.locals[0].startswith(sim.RES)


def known(q):
    """the store already has this operation"""
    return q.k == "call" and q.a[0].rsplit("::", 1)[-1] in ("contains_key", "contains") and len(q.a[1]) > 1 and any(x.k == "call" and x.a[0].endswith("Digest::hash") for x in subs(q.a[1][1]))


def public(q): return any(x.k == "call" and "::public::Public" in x.a[0] for x in subs(q))


def applied(rep, P):
    g = CallGraph(P)
    inn = {}
    for a, bs in g.out.items():
        for b in bs: inn.setdefault(base(b), set()).add(base(a))
    near, todo = set(), [f for fs in SINKS.values() for f in fs]
    for f in todo: rep.fn(f)
    while todo:
        x = todo.pop()
        if x in near: continue
        near.add(x); todo.extend(inn.get(x, ()))
    fwd, size = {}, {}
    for a, bs in g.out.items(): fwd.setdefault(base(a), set()).update(map(base, bs))
    for x in P.fns.values(): size[base(x.path)] = size.get(base(x.path), 0) + weight(x)
    small = {b for b, n in size.items() if n <= 6 and "::public::Public" not in b}
    con = {f: {k} for k, fs in SINKS.items() for f in fs}
    used = {}

    def settle(f):
        """what is settled (taken in, or known before) at every successful return of f"""
        if f in con: return con[f]
        con[f] = set()
        for b in sorted(fwd.get(f, ()) & near): settle(b)
        del con[f]
        c = A(P, f, con, small)
        s = sim.Sim(P, c)
        outs = s.entry_mut(f)
        rep.use(s)
        good = None
        for ret, facts, o in outs:
            if ret.k == "agg" and ret.a[2] == "Err": continue
            t = {q.a[0] for q, t in facts if t and q.k == "taken"}
            if any(t and known(q) for q, t in facts): t |= {"delegation", "revocation"}
            if any(t and q.k == "eq" and public(q) for q, t in facts): t |= {"prekey operation", "delegation"}     # Public takes nothing in (C17)
            if f == REC: used[frozenset(facts)] = t
            good = t if good is None else good & t
        con[f] = good or set()
        return con[f]
    settle(REC)
    rep.analysed["settles"] = {f: sorted(k) for f, k in con.items()}
    seen = {}
    for facts, took in used.items():
        kinds = {KINDS[q.a[1]] for q, t in facts if t and q.k == "is" and q.a[0].k == "param" and q.a[1] in KINDS}
        for k in kinds or {"event"}:
            seen[k] = seen.get(k, 0) + 1
            rep.need(k in took, f"applied:{k}", f"{REC} can report success for a {k} that was neither applied nor known before: it would not be retained", "success only when applied")
    for k in SINKS: rep.floor(f"success:{k}", seen.get(k, 0), 1, f"successful ways for a {k}")


def run(rep, P, tier):
    """Every event of an ingestion, new or pending, is followed through the loops of ingest_unsorted_static_events: it leaves a pass only
    applied, kept for the next pass, or failed with an error that nothing that arrives later can cure; at every return what is left has
    been added to the pending events; entries are removed from the pending events only when they were replayed, and only after the
    last pass. Applying: each kind of received event returns success only if it was applied or was already there."""
    seen = ingest(rep, P) or set()
    writers(rep, P, seen)
    applied(rep, P)
