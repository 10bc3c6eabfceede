"""C11: every applied change is announced to the listener, and only applied changes are."""
import sim
from sim import mk, subs, show
from kctx import *
import inserters

OPS = {DLG: "delegation", REV: "revocation", KC + "principal::individual::op::add_key::AddKeyOp": "prekey operation",
       KC + "principal::individual::op::rotate_key::RotateKeyOp": "prekey operation", "beekem::operation::CgkaOperation": "key-tree operation"}
TELL = {"on_delegation": "delegation", "on_revocation": "revocation", "on_prekeys_expanded": "prekey operation",
        "on_prekey_rotated": "prekey operation", "on_cgka_op": "key-tree operation"}
# functions of the state that apply a received operation; the kind, and whether Ok(false) means "not applied"
APPLY = {GS + "::add_revocation": ("revocation", False), "beekem::cgka::Cgka::merge_concurrent_operation": ("key-tree operation", True),
         "beekem::cgka::Cgka::new_from_init_add": ("key-tree operation", False)}
# the first prekeys of an identity that is only being made: they travel in its contact card
INITIAL = (KC + "principal::active::Active::generate", KC + "principal::individual::Individual::generate",
           KC + "principal::individual::state::PrekeyState::generate", KC + "principal::public::Public::individual")


def sign_kinds(P):
    """function -> kinds of operations it signs itself; and the signing primitives"""
    r = {}
    for f in P.fns.values():
        for blk in f.blocks:
            t = blk[1]
            if t[0] != "call": continue
            c = P.callee(f, t[1])
            k = signs(c) if c else None
            if k: r.setdefault(inserters.base(f.path), set()).add(k)
    return r


def signs(c):
    path, res, tr, ta = c
    if not path.startswith("keyhive_crypto::sign") or "try_sign" not in path: return None
    for a in ta:
        for o, k in OPS.items():
            if a == o or a.startswith(o + "<"): return k
    return None


class M(KCtx):
    def __init__(self, P, me, contracts, far):
        super().__init__(P)
        self.far = far
        self.me, self.con = me, contracts
        self.told, self.loops, self.pushed = [], {}, {}

    def opaque(self, p):
        return inserters.base(p) in self.con and inserters.base(p) != self.me or p in APPLY or inserters.base(p) in INITIAL or p == GS + "::new" or inserters.base(p) in self.far

    def keep(self, p):
        if p.k in ("made", "told", "promised", "stored", "ran"): return True
        return any(x.k == "call" and (x.a[0] in self.con or x.a[0] in APPLY or self.sign(x.a[0]) or x.a[0].endswith(("receive_prekey_op", "add_delegation"))) for x in subs(p))

    def sign(self, n): return n.startswith("keyhive_crypto::sign") and "try_sign" in n

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        n = path.rsplit("::", 1)[-1]
        w = f"{fn.path} ({fn.file}:{line})"
        a = tuple(s.strip_mref(fn, st.env, x) for x in args)
        if n in TELL and "istener" in path and len(a) > 1:
            self.told.append((TELL[n], a[1], w))
            st.facts = st.facts | {(mk("told", TELL[n], a[1]), True)}
            return [(sim.UNIT, st.facts)]
        if n == "insert" and ("DelegationStore" in path or "RevocationStore" in path) and len(a) > 1 and len(list(subs(a[1]))) < 40:
            st.facts = st.facts | {(mk("stored", a[1]), True)}
        if res == GS + "::new":       # enters its head and everything the head proves itself by (C04 decides what goes into the stores)
            st.facts = st.facts | {(mk("stored", a[0]), True)}
        if n == "register_individual" and len(a) > 1: st.facts = st.facts | {(mk("stored", a[1]), True)}
        if n == "push" and "FuturesUnordered" in path and len(args) > 1:
            st2 = sim.State(dict(st.env), st.facts)
            f = None
            for r, s2 in s.poll(fn, st2, args[1]):
                got = {(mk("promised", a[1], q.a[0], q.a[1]), True) for q, t in s2.facts if q.k == "told" and t and (q, t) not in st.facts}
                f = got if f is None else f & got
            st.facts = st.facts | (f or set())
        if path.endswith("StreamExt::next") and any("FuturesUnordered" in x for x in ta) and a[0].k == "coll" and not a[0].a[1]:
            return [(sim.NONE, st.facts | self.walked(st.facts, a[0], fn, line)), (sim.some(mk("call", "output", a[:1])), st.facts)]
        k = signs((path, res, None, ta))
        if k:
            r = mk("call", path, a)
            return [(r, st.facts | {(mk("made", k, r, "sign"), True)})]
        b = inserters.base(res)
        if b in self.con and b != self.me:
            r = mk("call", b, a)
            return [(r, st.facts | {(mk("made", k, r, how), True) for k, how in self.con[b]})]
        if res in APPLY:
            k, f = APPLY[res]
            r = mk("call", res, a)
            return [(r, st.facts | {(mk("made", k, r, "apply"), True)})]
        return None

    items_end = True

    def canon_facts(self, facts, fn):
        facts = super().canon_facts(facts, fn)
        gone = [x for x in facts if x[0].k == "made" and nothing(facts, x[0].a[1])]
        return facts.difference(gone) if gone else facts

    def owed(self, p): return p.k == "made"

    def on_store(self, s, facts, v):
        self.pushed.setdefault(v, []).append({k: accepted(facts, k, v, self) for k in ("delegation", "revocation")})
        return super().on_store(s, facts, v)

    def walked(self, facts, coll, fn, line):
        r = set()
        for q, t in facts:
            # draining a set of futures runs each of them to completion
            if q.k == "promised" and (q.a[0] in subs(coll) or coll.k == "coll" and not coll.a[1]): r.add((mk("told", q.a[1], q.a[2]), True))
            # a loop that leaves out none of what it runs over has seen what came from p, if that is always among it
            if q.k == "made" and not partial(coll) and holds(coll, q.a[1], self.con): r.add((mk("ran", fn.path, str(line), q.a[1]), True))
        return frozenset(r)

    def on_elem_end(self, s, e, facts, fn, line):
        self.loops.setdefault((fn.path, line), []).append((e, facts))


PARTIAL = {"skip", "take", "step_by", "skip_while", "take_while", "map_while", "nth", "last", "first", "find"}


def partial(c):
    while c.k == "call" and c.a[1] and not c.a[0].startswith(("keyhive", "beekem")):
        if c.a[0].rsplit("::", 1)[-1] in PARTIAL: return True
        c = c.a[1][0]
    return False


def holds(x, p, con, seen=None):
    """x always has what p made in it: p itself, a part of it, or something put together from it other than by making another operation"""
    if x is p: return True
    if x.k == "phi": return bool(x.a[0]) and all(holds(y, p, con) for y in x.a[0])
    if x.k == "call" and (x.a[0] in con or signs((x.a[0], "", None, ()))): return False
    return any(holds(y, p, con) for y in sim.kids(x))


def nothing(facts, p):
    """on this path the call made nothing: it failed, or returned no operation"""
    for q, t in facts:
        if q.k == "is" and p in subs(q.a[0]) and fields_on(q.a[0], p):
            if q.a[1] in ("Err", "None") and t: return True
            if q.a[1] in ("Ok", "Some") and not t: return True
        if not t and q.k != "is" and fields_on(q, p) and q is not p: return True    # Ok(false)
        if q.k == "call" and q.a[0].endswith("::is_empty") and t and fields_on(q.a[1][0], p): return True
    return False


def fields_on(x, p):
    while x.k == "fld": x = x.a[0]
    return x is p


def tells(kind, facts, p, how, c):
    if any(k == kind and holds(x, p, c.con) for k, x in passed(facts)): return True
    for q, t in facts:
        if q.k == "told" and t and q.a[0] == kind:
            if holds(q.a[1], p, c.con): return True
            if how == "apply" and any(q.a[1] is x or x in subs(q.a[1]) for x in p.a[1][1:]): return True
        # every element of a collection that holds it was announced
        if q.k == "ran" and t and q.a[2] is p and covered(c, kind, p, q): return True
    return False


def covered(c, kind, p, w):
    """the loop w announces each of its elements, and what comes from p is among them"""
    ends = c.loops.get((w.a[0], int(w.a[1])), ())
    return any(holds(e, p, c.con) for e, f in ends) and \
        all(any(q.k == "told" and t and q.a[0] == kind and e in subs(q.a[1]) for q, t in f) for e, f in ends)


def is_ok(ret):
    if ret.k == "phi":
        r = {is_ok(x) for x in ret.a[0]}
        return r.pop() if len(r) == 1 else "?"
    if ret.k == "agg" and ret.a[1] == sim.RES: return ret.a[2]
    return "?"


def enters(rep, P):
    """GroupState::new enters what it is given into the delegation store"""
    x = [f for f in P.fns.values() if inserters.base(f.path) == GS + "::new"]
    hit = [f for f in x for blk in f.blocks if blk[1][0] == "call" and (P.callee(f, blk[1][1]) or ("",))[0].endswith("::insert")]
    rep.need(bool(hit), "head:stored", GS + "::new does not enter its head into the delegation store")


def run(rep, P, tier):
    """Contracts: every function that signs an operation or applies a received one either announces it before it returns successfully,
    or hands it to its caller, who inherits the obligation; public functions of Keyhive (of Group and Document for delegations and
    revocations, of Active for prekeys) must announce. The other way round, at every return each announced operation must have been
    entered or applied on that path."""
    g = CallGraph(P)
    enters(rep, P)
    base = inserters.base
    signers = sign_kinds(P)
    rep.analysed["signing functions"] = sorted(signers)
    inn = {}
    for a, bs in g.out.items():
        for b in bs: inn.setdefault(base(b), set()).add(base(a))
    todo = list(signers) + list(APPLY)
    todo = [t for t in todo if t not in INITIAL]
    rel = set()
    while todo:
        x = todo.pop()
        for y in inn.get(x, ()):
            if y not in rel and y in P.fns and y.startswith((KC, "beekem::")) and y not in INITIAL: rel.add(y); todo.append(y)
    rel |= {b for b in signers if b in P.fns and b not in INITIAL}
    fwd = {}
    for a, bs in g.out.items(): fwd.setdefault(base(a), set()).update(base(x) for x in bs)

    def makes(r):
        seen, todo = set(), [r]
        while todo:
            x = todo.pop()
            if x in signers: return True
            if x not in seen: seen.add(x); todo.extend(fwd.get(x, ()))
    rel = {r for r in rel if r.startswith(KC) or makes(r)}
    rel -= set(APPLY)
    # functions that cannot announce, enter or apply anything are not looked into, unless they are small (accessors, conversions)
    def back(todo):
        act = set()
        while todo:
            x = todo.pop()
            if x in act: continue
            act.add(x)
            todo.extend(y for y in inn.get(x, ()) if not (x in APPLY and y.startswith("beekem::")))
        return act
    tell = lambda b: b.rsplit("::", 1)[-1] in TELL and "istener" in b
    tellers = {y for x in inn if tell(x) for y in inn[x] if y in P.fns and y.startswith(KC) and ".listener" not in y and "::listener::" not in y}
    alltell = set(tellers)
    tellers = {f for f in tellers if f in rel or makes(f) or any(public(P, f, k) for k in set(TELL.values()))}
    rel |= tellers
    act = back(list(APPLY) + list(rel) + list(alltell))
    enter = act | back([b for b in inn if b.rsplit("::", 1)[-1] == "insert" and ("DelegationStore" in b or "RevocationStore" in b)])
    size = {}
    for x in P.fns.values(): size[base(x.path)] = size.get(base(x.path), 0) + (len(x.blocks) if weight(x) > 4 else min(25, len(x.blocks)))
    far = {b for b in size if b not in act and size[b] > 25}, {b for b in size if b not in enter and size[b] > 25}
    import os

    out = {}
    for a in rel: out[a] = fwd.get(a, set()) & rel - {a}
    order, mark = [], {}

    def visit(a):
        if a in mark: return
        mark[a] = 1
        for b in sorted(out[a]): visit(b)
        order.append(a)
    for a in sorted(rel): visit(a)
    con = {}
    TELLS.clear()
    used = {b for a, bs in g.out.items() for b in map(base, bs) if b != base(a)}
    n = {k: 0 for k in set(TELL.values())}
    for f in order:
        if f not in used and not any(public(P, f, k) for k in set(TELL.values())):
            rep.notes.append(f"{f} is called by nothing and is not part of the interface: not analysed")
            con[f] = set()
            continue
        if f not in tellers and f not in signers and not fwd.get(f, set()) & set(APPLY) and f in P.fns and not any(con.get(b, True) for b in fwd.get(f, ()) & rel - {f}):
            con[f] = set()       # everything it calls settles its own announcements
            rep.fn(f) if hasattr(rep, "fn") else None
            continue
        con[f] = contract(rep, P, f, con, n, far[f in tellers])
    for k, x in (("delegation", 2), ("revocation", 1), ("prekey operation", 2), ("key-tree operation", 6)): rep.floor(f"told:{k}", n[k], x, f"announced {k}s")
    rep.analysed["contracts"] = {f: sorted(map(str, c)) for f, c in con.items()}


def public(P, f, kind):
    if P.fns[f].vis != "Public": return False
    if f.startswith(KH + "::"): return True
    if kind in ("delegation", "revocation"): return f.startswith((GR + "::", DOC + "::"))
    if kind == "prekey operation": return f.startswith(KC + "principal::active::Active::")
    return False


TELLS = {}     # function -> {(kind, i)}: when it succeeds, its i-th argument has been announced


def contract(rep, P, f, con, n, far):
    c = M(P, f, con, far)
    s = sim.Sim(P, c)
    nm = f.split("::", 1)[1]
    carried = set()
    import time, os; t0 = time.time()
    if os.environ.get("DBG"): print("->", f, flush=True)
    outs = s.entry_mut(f)
    import os
    if os.environ.get("DBG"): print(f, round(time.time() - t0, 1), len(outs), s.steps, flush=True)
    for ret, facts, o in outs:
        ok = is_ok(ret) != "Err"
        for q, t in facts:
            if q.k == "made" and t and ok:
                kind, p, how = q.a
                if nothing(facts, p): continue
                if tells(kind, facts, p, how, c):
                    n[kind] += 1
                    rep.ok(f"{nm}:{kind}", "announced")
                elif (holds(ret, p, con) or any(holds(x, p, con) for x in o if x is not None) or how == "apply" and yes(ret)) and not public(P, f, kind):
                    carried.add((kind, how))
                    rep.ok(f"{nm}:{kind}", "handed to the caller")
                else:
                    src = p.a[0].split("::")[-1]
                    rep.bad(f"{nm}:{kind}", f"{f} can return {show(ret, 3)[:80]} without announcing the {kind} from {src} to the listener" +
                            ("" if p in subs(ret) or how == "apply" else " (it is dropped)"))
            if q.k == "told" and t:
                kind, x = q.a
                rep.need(accepted(facts, kind, x, c), f"{nm}:{kind}:applied", f"{f}: the listener is told about a {kind} that was not applied: {show(x, 6)[:150]} (returns {show(ret, 3)[:80]})")
    rep.use(s)
    good = None
    for ret, facts, o in outs:
        if is_ok(ret) == "Err": continue
        t = {(q.a[0], q.a[1].a[1]) for q, t in facts if t and q.k == "told" and q.a[1].k == "param"}
        t |= {(k, x.a[1]) for k, x in passed(facts) if x.k == "param"}
        good = t if good is None else good & t
    TELLS[f] = good or set()
    return carried


def passed(facts):
    """what successful callees announced on behalf of the caller"""
    for q, t in facts:
        if q.k == "is" and (q.a[1] == "Ok") == bool(t) and q.a[1] in ("Ok", "Err") and q.a[0].k == "call":
            for k, i in TELLS.get(q.a[0].a[0], ()): yield k, q.a[0].a[1][i]


def root(x):
    while x.k == "fld": x = x.a[0]
    return x


def yes(ret): return ret.k == "agg" and ret.a[2] == "Ok" and ret.a[3][0] is sim.TRUE


def accepted(facts, kind, x, c):
    con = c.con
    if c.pushed.get(x) and all(r.get(kind) for r in c.pushed[x]): return True
    if kind in ("prekey operation", "key-tree operation") and any(y.k == "call" and (y.a[0] in con and con[y.a[0]] <= {(kind, "sign")}) for y in subs(x)): return True
    for q, t in facts:
        if not t: continue
        if q.k == "stored" and (root(x) in subs(q.a[0]) and root(x) is not x and not (root(x).k == "param" and root(x).a[2] == "self") or q.a[0] is x or q.a[0] in subs(x) or x in subs(q.a[0])): return True
        if q.k == "made" and q.a[0] == kind:
            p, how = q.a[1], q.a[2]
            if how == "apply":
                if any(y is x or y in subs(x) for y in p.a[1][1:]) and not nothing(facts, p) and sure(facts, p): return True
            elif kind in ("prekey operation", "key-tree operation") and p in subs(x): return True
        if q.k == "is" and q.a[1] == "Ok" and q.a[0].k == "call" and q.a[0].a[0].endswith(("receive_prekey_op", "add_delegation")) \
                and any(y is x or y in subs(x) for y in q.a[0].a[1][1:]): return True
    return False


def sure(facts, p):
    """the application is known to have succeeded (and, when it says so, to have changed something)"""
    if not any(q.k == "is" and q.a[0] is p and (q.a[1] == "Ok") == bool(t) for q, t in facts): return False
    return "merge" not in p.a[0].rsplit("::", 1)[-1] or any(t and q.k == "fld" and fields_on(q, p) for q, t in facts)
