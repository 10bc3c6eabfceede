"""C10: group-key operations are applied causally, once, and recorded."""
import sim
from sim import mk, subs, show
from kctx import *
from keytree import *
import effects, inserters

EPOCHS = CGKA + "::apply_epochs"
PEND = "pending_ops_for_structural_change"


class M(K):
    looks = ()
    def __init__(self, P, me, opq):
        super().__init__(P, me, opq)
        self.ends = []

    def keep(self, p):
        return p.k in ("exhausted", "rec") or super().keep(p) or (p.k == "call" and p.a[0] in ("contains", "contains_key")) \
            or any(is_call(x, "len", "is_empty", "get") for x in subs(p)) or (p.k == "is" and fields(p.a[0])[-1:] in (("payload",), ("cgka",)))

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        if res in self.graph:
            for a in args[1:]:
                a = s.strip_mref(fn, st.env, a)
                st.facts = st.facts | {(mk("rec", a), True)}
        return super().on_call(s, st, fn, bb, path, res, args, line, mac, ta)

    def on_elem_end(self, s, e, facts, fn, line):
        if s.adaptor in self.looks: return
        self.ends.append((e, facts, f"{fn.path} ({fn.file}:{line})"))


def has(facts, field, item):
    """is `item` in the collection in that field? True, False or None"""
    r = None
    for p, t in facts:
        if p.k == "call" and p.a[0].rsplit("::", 1)[-1] in ("contains", "contains_key") and fields(p.a[1][0])[-1:] == (field,) and item(p.a[1][1]): r = t if r is None or t else r
        if p.k == "is" and is_call(p.a[0], "get") and fields(p.a[0].a[1][0])[-1:] == (field,) and item(p.a[0].a[1][1]): r = (p.a[1] == "Some") == bool(t)
    return r


def hash_of(op):
    return lambda x: is_call(x, "hash") and x.a[1][0] is op or is_call(x, "digest") and x.a[1][0] is op


def preds(x):
    return fields(x)[-1:] == ("predecessors",) or is_call(x, "predecessors")


def run(rep, P, tier):
    """Dataflow over the value of `self` (what changed, from which operation, under which facts) for every method of Cgka that changes
    the tree, the history or the pending flag; rules at every return and at every use of the tree; loops over predecessors, heads and
    epochs by the facts at the end of each iteration; call-graph dominance for who may write these fields."""
    g = CallGraph(P)
    cr = creators(P, g)
    for p in (MERGE, REPLAY, EPOCHS): rep.fn(p)
    create(rep, P, cr)
    if MERGE in P.fns: receive(rep, P)
    if EPOCHS in P.fns: epochs(rep, P)
    if REPLAY in P.fns: replay(rep, P)
    graph(rep, P)
    document(rep, P, g)
    writers(rep, P, g, cr)


def create(rep, P, cr):
    n = 0
    for p in sorted(cr):
        c = M(P, p, cr | {REPLAY})
        s = sim.Sim(P, c)
        nm = p.split("::")[-1]
        writes = False
        for ret, facts, outs in s.entry_mut(p):
            ch = changes(outs[0], cr)
            if not rep.need(ch is not None, f"{nm}:known", f"{p}: cannot follow what happens to the key tree", "followed"): continue
            tree, gr = ch.get("tree"), ch.get("ops_graph")
            rep.need((tree is None) == (gr is None), f"{nm}:recorded", f"{p} can return with the {'tree' if tree else 'history'} changed but not the {'history' if tree else 'tree'}", nm)
            if tree: writes = True
            for v in gr or ():
                n += 1
                new = v.a[2] if v.k == "mut" else ()
                heads = [x for y in new for x in subs(y) if x.k == "fld" and x.a[2] == "cgka_op_heads"]
                rep.need(heads, f"{nm}:predecessors", f"{p} records an operation that does not name the current heads as its predecessors", "heads named")
                rep.need(len([x for x in subs(v) if x.k == "mut" and x.a[0].startswith(GRAPH)]) == 1, f"{nm}:once", f"{p} records an operation more than once")
                rep.need(any(mu(x, v.a[2]) for x in tree or ()), f"{nm}:same", f"{p}: the recorded operation is not built from what is done to the tree")
        if writes:
            for a, facts, w in c.uses:
                rep.need(settled(facts, a.a[0]), f"{nm}:settled", f"{w}: {p} looks at the key tree while operations may still wait to be replayed", w)
            rep.need(c.uses, f"{nm}:uses", f"{p} does not look at the tree")
        rep.use(s)
    rep.floor("created", n, 3, "recorded created operations")


def mu(tree, new):
    """the new tree and the recorded operation derive from the same change or the same arguments"""
    a = {x for x in subs(tree) if x.k in ("param", "fld", "call") and fpath(x)[0].k != "fld"}
    b = set()
    for y in new: b |= set(subs(y))
    return bool({x for x in a & b if not (x.k == "param" and x.a[2] == "self")})


def failed(v, facts, falls):
    """the change was refused by the tree (which leaves it as it was: see refusals)"""
    if v.k != "mut" or not v.a[0].startswith(TREE): return False
    for p, t in facts:
        if p.k == "is" and is_call(p.a[0], v.a[0].rsplit("::", 1)[-1]) and p.a[0].a[0] == v.a[0] and (p.a[1] == "Err") == bool(t):
            falls.add(v.a[0])
            return True
    return False


def once(name, old, args): return old if old.k == "mut" else mk("mut", "changed", old, ())


def refusals(rep, P, falls):
    """methods of the tree that can refuse leave it unchanged when they do"""
    for p in sorted(falls):
        c = KCtx(P)
        c.mutates = True
        c.opaque = lambda q, p=p: q != p and q.startswith(TREE)
        c.mut_term = once
        s = sim.Sim(P, c)
        n = 0
        for ret, facts, o in s.entry_mut(p):
            if outcome(ret) == "Ok": continue
            n += 1
            rep.need(o[0].k == "param", f"refusal:{p}", f"{p} can return an error after changing the tree ({show(ret, 3)})", show(ret, 3)[:80])
        rep.floor(f"refusal:{p}", n, 1, "refusals")
        rep.use(s)


def receive(rep, P):
    falls = set()
    c = M(P, MERGE, {REPLAY})
    s = sim.Sim(P, c)
    outs = s.entry_mut(MERGE)
    op = None
    n = {"direct": 0, "held": 0}
    for ret, facts, o in outs:
        V = o[0]
        op = next((x for p, _ in facts for x in subs(p) if x.k == "param" and x.a[1] == 1), mk("param", MERGE, 1, "op", P.fns[MERGE].locals[2]))
        ch = changes(V, set())
        if not rep.need(ch is not None, "merge:known", f"{MERGE}: cannot follow what happens to the key tree ({show(V, 5)[:200]})", "followed"): continue
        tree, gr, pend = ch.get("tree"), ch.get("ops_graph"), ch.get(PEND)
        tree = [v for v in tree or () if not failed(v, facts, falls)]
        done = outcome(ret) == "Ok"
        yes = done and ret.a[3][0] is sim.TRUE
        if tree or gr or pend or replayed(V):
            rep.need(has(facts, "cgka_ops", hash_of(op)) is False or any(has_at(facts, op, False)), "merge:once", f"{MERGE} acts on an operation without knowing that it is not in the history yet", "not known yet")
            rep.need(any(p.k == "exhausted" and t and preds(p.a[0]) for p, t in facts), "merge:causal", f"{MERGE} acts on an operation without having looked at all of its predecessors", "all predecessors seen")
        if tree: rep.need(gr, "merge:recorded", f"{MERGE} changes the tree and does not record the operation", "recorded")
        for v in gr or (): rep.need(v.k == "mut" and v.a[0].startswith(GRAPH) and op in v.a[2], "merge:records-op", f"{MERGE} records something other than the received operation ({show(v, 4)[:160]})", show(v, 3))
        if not yes:
            rep.need(not tree and not gr and not pend, "merge:refused", f"{MERGE} returns {show(ret, 3)} after changing the tree, the history or the pending flag", show(ret, 3)[:80])
        else:
            rep.need(gr or any(has_at(facts, op, True)), "merge:accepted", f"{MERGE} reports success without recording the operation", "Ok(true)")
        final = s.field(V, CGKA, PEND)
        if gr and not tree:
            n["held"] += 1
            rep.need(final is sim.TRUE or any(p is final and t for p, t in facts), "merge:held", f"{MERGE} records an operation it did not apply without remembering that a replay is needed", "pending")
        if pend: rep.need(final is sim.TRUE, "merge:flag", f"{MERGE} forgets that a replay is needed", "pending set")
        for v in tree or ():
            n["direct"] += 1
            base = V
            while base.k == "upd": base = base.a[0]
            heads_known = any(p.k == "exhausted" and t and fields(p.a[0])[-1:] == ("cgka_op_heads",) for p, t in facts)
            st = settled(facts, base)
            upd = any(p.k == "is" and t and p.a[1] == "Update" and op in subs(p) for p, t in facts)
            quiet = upd and any(p.k == "fld" and p.a[2] == PEND and not t for p, t in facts)
            rep.need((heads_known and st) or quiet, "merge:concurrent", f"{MERGE} applies an operation directly although it may be concurrent with membership changes, or on a tree that "
                     "misses operations waiting to be replayed", "not concurrent and settled, or an update with nothing waiting")
            rep.need(v.k == "mut" and any(op in subs(y) for y in v.a[2]), "merge:applies-op", f"{MERGE} changes the tree by something other than the received operation ({show(v, 4)[:160]})", show(v, 3))
    iters = 0
    for e, facts, w in c.ends:
        if e.k == "elem" and preds(e.a[0]):
            iters += 1
            rep.need(has(facts, "cgka_ops", lambda x: x is e) is True, "merge:each-predecessor", f"{w}: a predecessor is passed over without being known to be in the history", w)
        if e.k == "elem" and fields(e.a[0])[-1:] == ("cgka_op_heads",):
            iters += 1
            good = any(p.k == "call" and p.a[0].rsplit("::", 1)[-1] == "contains" and preds(p.a[1][0]) and p.a[1][1] is e and t for p, t in facts)
            rep.need(good, "merge:each-head", f"{w}: a head is passed over without being known to be a predecessor of the operation", w)
    rep.floor("merge:iterations", iters, 2, "iterations over predecessors and heads")
    refusals(rep, P, falls)
    rep.floor("merge:direct", n["direct"], 3, "direct applications of a received operation")
    rep.floor("merge:held", n["held"], 2, "received operations held for a replay")
    rep.use(s)


def has_at(facts, op, val):
    for p, t in facts:
        if p.k == "call" and p.a[0].rsplit("::", 1)[-1] in ("contains", "contains_key") and fields(p.a[1][0])[-1:] == ("cgka_ops",) and hash_of(op)(p.a[1][1]): yield t == val


def epochs(rep, P):
    c = M(P, EPOCHS, set())
    c.looks = ("all", "any", "find", "position")   # iterations that only look at operations
    c.mut_term = once                              # what matters here are the facts, not the value of the tree
    s = sim.Sim(P, c)
    full = 0
    for ret, facts, o in s.entry_mut(EPOCHS):
        if outcome(ret) == "Ok":
            full += 1
            rep.need(any(p.k == "exhausted" and t and p.a[0].k == "param" for p, t in facts), "epochs:all", f"{EPOCHS} can succeed before every epoch was applied", "all epochs")
    n = 0
    for e, facts, w in c.ends:
        if e.k != "elem": continue
        def rec(x): return any(p.k == "rec" and t and p.a[0] is x for p, t in facts) or any(has_at(facts, x, True))
        if e.a[0].k == "param":
            n += 1
            first = mk("call", "index", (e, mk("const", "0", "usize")))
            only = any(p.k == "eq" and t and any(is_call(x, "len") and x.a[1][0] is e for x in p.a) for p, t in facts)
            ok = any(p.k == "exhausted" and t and p.a[0] is e for p, t in facts) or (only and any(
                p.k == "rec" and t and e in subs(p.a[0]) or p.k == "call" and t and p.a[0].rsplit("::", 1)[-1] in ("contains", "contains_key") and e in subs(p.a[1][1]) for p, t in facts))
            rep.need(ok, "epochs:each-epoch", f"{w}: an epoch is passed over without applying all of its operations", w)
        elif e.a[0].k == "elem" and e.a[0].a[0].k == "param" and any(p.k == "is" and p.a[0].k == "fld" or p.k == "rec" for p, t in facts):
            # iterations that only look at the operations (all, any) are not the ones that apply them
            if any(p.k == "rec" and e in subs(p) for p, t in facts) or any(p.k == "call" and p.a[0].rsplit("::", 1)[-1] == "contains_key" and e in subs(p) for p, t in facts):
                n += 1
                rep.ok("epochs:each-op", w)
    apply_loops(rep, P, c)
    rep.floor("epochs:iterations", n, 3, "epochs and operations applied")
    rep.floor("epochs:returns", full, 1, "successful returns")
    rep.use(s)


def apply_loops(rep, P, c):
    """in a loop that applies operations, every operation is applied"""
    by = {}
    for e, facts, w in c.ends:
        if e.k == "elem" and e.a[0].k == "elem":
            k = any(p.k == "rec" and t and e in subs(p) for p, t in facts) or any(has_at(facts, e, True))
            by.setdefault(w, []).append(k)
    for w, ks in by.items():
        if any(ks): rep.need(all(ks), "epochs:every-op", f"{w}: an operation of an epoch is passed over without being applied", w)


def replay(rep, P):
    c = M(P, REPLAY, {EPOCHS, CGKA + "::pcs_key_from_tree_root"})
    c.opq.add(EPOCHS)
    c.mut_term = lambda name, old, args: mk("mut", name, old, args)
    s = sim.Sim(P, c)
    n = 0
    for ret, facts, o in s.entry_mut(REPLAY):
        V = o[0]
        if outcome(ret) == "Err":
            rep.need(V.k == "param", "replay:err", f"{REPLAY} can fail half way ({show(V, 3)})", show(ret, 3)[:100]); continue
        n += 1
        tree = s.field(V, CGKA, "tree")
        ap = [x for x in subs(tree) if x.k == "mut" and x.a[0] == EPOCHS]
        rep.need(ap, "replay:rebuilt", f"{REPLAY} can succeed without rebuilding the tree ({show(tree, 5)[:200]})", show(tree, 4)[:150])
        for a in ap:
            srt = [x for y in a.a[2] for x in subs(y) if x.k == "call" and "topsort" in x.a[0]]
            good = any(fields(x.a[1][0])[-1:] == ("ops_graph",) and fpath(x.a[1][0])[0].k == "param" and (len(x.a[1]) == 1 or fields(x.a[1][1])[-1:] == ("cgka_op_heads",)) for x in srt)
            rep.need(good, "replay:all", f"{REPLAY} does not apply the whole history", "the topologically sorted history")
            fresh = s.field(a.a[1], CGKA, "tree")
            rep.need(is_call(fresh, "new") or any(is_call(x, "new") and x.a[0].startswith(TREE) for x in subs(fresh)), "replay:fresh", f"{REPLAY} does not start from the initial tree ({show(fresh, 4)[:160]})", show(fresh, 3))
        gr = s.field(V, CGKA, "ops_graph")
        rep.need(gr.k == "fld" and fpath(gr)[0].k == "param", "replay:history", f"{REPLAY} changes the history", show(gr, 3))
    rep.floor("replay:returns", n, 1, "successful replays")
    p = f"<{CGKA} as keyhive_crypto::transact::merge::Merge>::merge"
    p = next((f for f in P.fns if f.startswith(f"<{CGKA} as") and f.endswith("Merge>::merge")), p)
    if rep.fn(p):
        c = M(P, p, {REPLAY})
        c.mut_term = lambda name, old, args: mk("mut", name, mk("before"), ()) if name == REPLAY else mk("mut", name, old, args)
        s2 = sim.Sim(P, c)
        for ret, facts, o in s2.entry_mut(p):
            rep.need(o[0].k == "mut" and o[0].a[0] == REPLAY, "merge-fork:replay", f"{p} can return without replaying the merged history: {show(o[0], 3)[:900]}", "replays")
    rep.use(s)


class G(KCtx):
    mutates = True

    def __init__(self, P):
        super().__init__(P)
        self.rm, self.ends = [], []

    def on_filtered(self, s, e, facts, fn): self.ends.append((e, facts, f"{fn.path} ({fn.file})"))

    def on_elem_end(self, s, e, facts, fn, line):
        if s.adaptor == "extend": return   # stored
        self.ends.append((e, facts, f"{fn.path} ({fn.file}:{line})"))

    def keep(self, p):
        return p.k in ("exhausted", "rec") or (p.k == "is" and p.a[0].k == "param")

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        n = path.rsplit("::", 1)[-1]
        if n in ("insert", "push", "push_back") and len(args) > 1:
            st.facts = st.facts | {(mk("rec", s.strip_mref(fn, st.env, args[1])), True)}
        if n in ("remove", "clear", "retain", "drain", "take", "extract_if", "replace") and args:
            a = s.strip_mref(fn, st.env, args[0])
            if any(fields(x)[-1:] == ("cgka_op_heads",) for x in subs(a) if x.k == "fld"):
                self.rm.append((n, [s.strip_mref(fn, st.env, x) for x in args[1:]], st.facts, f"{fn.path} ({fn.file}:{line})"))


def entire(t, h):
    """the collection h, not just some of its elements, is part of t"""
    return t is h or (t.k != "elem" and any(entire(x, h) for x in sim.kids(t)))


def graph(rep, P):
    n = 0
    for p in sorted(mutself(P, GRAPH)):
        if P.fns[p].vis != "Public" or not p.startswith(GRAPH + "::"): continue
        c = G(P)
        s = sim.Sim(P, c)
        nm = p.split("::")[-1]
        ext = P.fns[p].argc > 2
        whole, named = True, 0
        for ret, facts, o in s.entry_mut(p):
            n += 1
            v = None
            op = mk("param", p, 1, P.fns[p].names.get(2, "arg1"), P.fns[p].locals[2])
            ops = s.field(o[0], GRAPH, "cgka_ops")
            rep.need(any(x.k == "mut" and x.a[0].endswith("::insert") and any(op in subs(y) for y in x.a[2]) for x in subs(ops)), f"graph:{nm}:ops", f"{p} does not add the operation to the history ({show(ops, 4)[:160]})", show(ops, 3))
            for f in ("cgka_op_heads", "cgka_ops_predecessors"):
                v = s.field(o[0], GRAPH, f)
                ok = any(is_call(x, "hash", "digest") and op in subs(x) for x in subs(v))
                rep.need(ok, f"graph:{nm}:{f}", f"{p} does not enter the operation in {f} ({show(v, 5)[:160]})", f)
            if not ext:
                H = s.field(mk("param", p, 0, P.fns[p].names.get(1, "self"), P.fns[p].locals[1]), GRAPH, "cgka_op_heads")
                new = [y for x in subs(v) if x.k == "mut" for y in x.a[2]] + [y for x in subs(v) if x.k == "coll" for y in x.a[1]]
                whole = whole and any(entire(y, H) for y in new)
                if any(H in subs(y) for y in new): named += 1
        if not ext: rep.need(named, f"graph:{nm}:preds", f"{p} does not enter the current heads as predecessors of the operation", "heads")
        for e, facts, w in c.ends:
            if not ext and e.k == "elem" and fields(e.a[0])[-1:] == ("cgka_op_heads",):
                rep.need((mk("rec", e), True) in facts, f"graph:{nm}:each-pred", f"{w}: a head is passed over without becoming a predecessor of the operation", w)
        for kind, args, facts, w in c.rm:
            if kind == "remove" and args and args[0].k == "elem":
                e = args[0]
                rep.need(e.a[0].k == "param" or any(x.k == "param" and x.a[1] == 2 for x in subs(e)), f"graph:{nm}:remove", f"{w}: a head that is not a predecessor of the operation is removed", w)
            elif kind in ("clear", "take", "replace"):
                seen = any(p_.k == "exhausted" and t and fields(p_.a[0])[-1:] == ("cgka_op_heads",) for p_, t in facts)
                rep.need((seen or whole) and not ext, f"graph:{nm}:clear", f"{w}: the heads are cleared without becoming predecessors of the operation", w)
            else:
                rep.bad(f"graph:{nm}:{kind}", f"{w}: heads are removed in a way the rule does not know ({kind})")
        rep.use(s)
    rep.floor("graph:returns", n, 2, "ways through recording an operation")


def document(rep, P, g):
    """The document layer hands received operations to the key tree, and only creates a tree from an initial operation."""
    for p in (DOC + "::merge_cgka_op", DOC + "::merge_cgka_invite_op"):
        if not rep.fn(p): continue
        nm = p.split("::")[-1]
        c = M(P, p, {MERGE})
        c.mut_term = lambda name, old, args: mk("mut", name, old, args)
        s = sim.Sim(P, c)
        k = 0
        for ret, facts, o in s.entry_mut(p):
            V = s.field(o[0], DOC, "cgka")
            op = mk("param", p, 1, P.fns[p].names.get(2, "arg1"), P.fns[p].locals[2])
            if V.k == "fld" and fpath(V)[0].k == "param":
                rep.need(outcome(ret) == "Err" or outcome(ret) == "?", f"doc:{nm}:nothing", f"{p} reports success without handing the operation to the key tree", "error"); continue
            k += 1
            inner = V.a[3][0] if V.k == "agg" and V.a[2] == "Some" else s.field(V, sim.OPT, "0", "Some")
            fresh = [x for x in subs(inner) if is_call(x, "new") and x.a[0].startswith(TREE)]
            if fresh:
                empty = any(q.k == "call" and q.a[0].rsplit("::", 1)[-1] == "is_empty" and preds(q.a[1][0]) and t for q, t in facts)
                none = any(q.k == "is" and fields(q.a[0])[-1:] == ("cgka",) and (q.a[1] == "None") == bool(t) for q, t in facts)
                add = any(q.k == "is" and q.a[1] == "Add" and t for q, t in facts)
                rep.need(empty and none and add, f"doc:{nm}:initial", f"{p} starts a key tree from an operation that is not an initial one, or replaces a tree", "initial add, no tree yet")
                rep.need(op in subs(inner), f"doc:{nm}:initial-op", f"{p} starts a key tree from something other than the received operation", "from the operation")
            else:
                ch = changes(unwrap(inner), {MERGE})
                merged = any(x.k == "mut" and x.a[0] == MERGE and op in x.a[2] for x in subs(inner))
                own = ch is not None and not ({"tree", "ops_graph", PEND} & set(ch))
                rep.need(own, f"doc:{nm}:tree", f"{p} changes the key tree other than by merging the operation ({show(inner, 4)[:160]})", "merge_concurrent_operation only")
                if outcome(ret) != "Err": rep.need(merged, f"doc:{nm}:merged", f"{p} reports success without handing the operation to the key tree", "merged")
        rep.floor(f"doc:{nm}", k, 1, "ways to change the key tree")
        rep.use(s)


def unwrap(v):
    """replaces the initial value of the document's tree by a parameter, so that changes() recognises it"""
    if v.k == "upd": return mk("upd", unwrap(v.a[0]), v.a[1], v.a[2])
    if v.k == "mut": return mk("mut", v.a[0], unwrap(v.a[1]), v.a[2])
    if v.k == "fld" and fpath(v)[0].k == "param": return fpath(v)[0]
    return v


def writers(rep, P, g, cr):
    ok = cr | {MERGE, REPLAY, EPOCHS, CGKA + "::new_from_init_add", CGKA + "::with_new_owner", CGKA + "::new"}
    ok |= {f for f in P.fns if f.startswith(f"<{CGKA} as") and f.endswith("Merge>::merge")}
    inside = inserters.dominated(P, g, ok) | ok
    ws = effects.field_writes(P, CGKA, ("tree", "ops_graph", PEND))
    rep.floor("writers:cgka", len(ws), 8, "writes to the key tree, history and pending flag")
    for path, adt, f, line, how in ws:
        b = inserters.base(path)
        rep.need(b in inside or how in ("decrypt_tree_secret",), f"writers:{b}:{f}", f"{path} (line {line}) changes {f} outside the methods that keep tree and history in step ({how})", f"{b} {how}")
    ok = mutself(P, GRAPH) | {f for f in P.fns if f.startswith(f"<{GRAPH} as") and f.endswith("Merge>::merge")} | {GRAPH + "::new"}
    inside = inserters.dominated(P, g, ok) | ok
    ws = effects.field_writes(P, GRAPH, ("cgka_ops", "cgka_ops_predecessors", "cgka_op_heads"))
    rep.floor("writers:graph", len(ws), 6, "writes to the operation graph")
    for path, adt, f, line, how in ws:
        b = inserters.base(path)
        rep.need(b in inside or how == "construct-empty", f"writers:{b}:{f}", f"{path} (line {line}) changes {f} of the operation graph directly ({how})", f"{b} {how}")
    ws = effects.field_writes(P, DOC, ("cgka",))
    ok = {DOC + "::" + x for x in ("merge_cgka_op", "merge_cgka_invite_op", "reset_cgka_owner", "generate", "from_group", "cgka_mut", "dummy_from_archive")}
    ok |= {b for b in {inserters.base(w[0]) for w in ws} if b.startswith(DOC + "::")} - {DOC + "::x"}
    for path, adt, f, line, how in ws:
        b = inserters.base(path)
        rep.need(b in ok, f"writers:{b}:cgka", f"{path} (line {line}) replaces the key tree of a document ({how})", f"{b} {how}")
