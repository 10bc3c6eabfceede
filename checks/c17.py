"""C17: the public principal always uses its well-known key."""
import re
import sim
from sim import mk, subs, show
from kctx import *
import effects

PUB = KC + "principal::public::Public"
PS = KC + "principal::individual::state::PrekeyState"
ACTIVE = KC + "principal::active::Active"
CORE_CGKA = KC + "cgka::Cgka"
CARD = KC + "contact_card::ContactCard"
PICK = re.compile(r"::pick_individual_prekeys$")
CONV = ("from", "into", "to_bytes", "clone", "dupe", "deref", "as_ref", "share_key", "verifying_key", "as_bytes", "force", "to_owned", "borrow")
STATIC = re.compile(r"LazyLock<")


def closed(t):
    """a fixed value: built from literals and lazily initialised statics by conversions alone"""
    for x in subs(t):
        if x.k in ("param", "elem", "key", "val", "fld", "mut", "deep", "phi", "deepelem", "sym"): return False
        if x.k == "call" and x.a[0].rsplit("::", 1)[-1] not in CONV: return False
    return any(x.k == "const" or x.k == "rep" for x in subs(t))


def pid(t): return closed(t)


class Base(KCtx):
    def __init__(self, P):
        super().__init__(P)
        self.inline_stop = self.inline_stop + (r"^beekem::",)

    def keep(self, p): return p.k == "eq"


def base_name(p): return re.sub(r"(::\{closure#\d+\})+$", "", p)


def constants(rep, P):
    """the well-known id and keys are constants"""
    for n in ("id", "share_key", "share_secret_key", "signing_key"):
        p = f"{PUB}::{n}"
        if not rep.fn(p): continue
        s = sim.Sim(P, Base(P))
        for r, f, o in s.entry_mut(p):
            rep.need(closed(r), f"constant:{n}", f"{p} is not a fixed value: {show(r, 6)[:200]}", show(r, 5)[:100])
        rep.use(s)
    n = 0
    for p, f in P.fns.items():
        if p.startswith(KC + "principal::public::PUBLIC_") or (p.startswith(KC + "principal::public::") and re.search(r"::[A-Z_]+::\{closure#0\}$", p)):
            s = sim.Sim(P, Base(P))
            for r, fa, o in s.entry_mut(p):
                n += 1
                rep.need(closed(r) and not any(STATIC.search(str(x.a)) for x in subs(r) if x.k == "const"), f"constant:{p.rsplit('::', 2)[-2]}", f"{p} does not compute a fixed value: {show(r, 6)[:200]}", show(r, 6)[:120])
            rep.use(s)
    rep.floor("statics", n, 1, "initialisers of well-known values")

    class One(Base):
        def __init__(self, P):
            super().__init__(P)
            self.ops = []

        def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
            if path == PS + "::new": self.ops.append(s.strip_mref(fn, st.env, args[0]))
            elif path.startswith(PS + "::") and path.rsplit("::", 1)[-1] in ("insert_op", "extend", "generate"): self.ops.append(mk("param", "?", 9, "?", "?"))
            return None
    p = PUB + "::individual"
    if rep.fn(p):
        c = One(P)
        s = sim.Sim(P, c)
        for r, f, o in s.entry_mut(p):
            x = s.field(r, IND, "id")
            rep.need(closed(x), "individual:id", f"{p} has an id that is not the well-known one: {show(x, 5)[:160]}", show(x, 5)[:100])
        ks = [x.a[3][0] for op in c.ops for x in subs(op) if x.k == "agg" and x.a[1].endswith("::AddKeyOp")]
        rep.need(c.ops and ks and all(closed(k) for k in ks) and len(set(c.ops)) == 1, "individual:key", f"{p} does not have exactly the well-known prekey: {[show(k, 5)[:100] for k in ks]}", [show(k, 4)[:80] for k in ks][:1])
        rep.use(s)


def picking(rep, P):
    """whoever picks a prekey for Public picks the well-known one"""
    p = IND + "::pick_prekey"
    n = 0
    if rep.fn(p):
        s = sim.Sim(P, Base(P))
        for r, facts, o in s.entry_mut(p):
            n += 1
            other = any(q.k == "eq" and not v and any(closed(x) for x in q.a) and any(fpath(x)[1][:1] == ("id",) and fpath(x)[0].k == "param" for x in q.a) for q, v in facts)
            rep.need(closed(r) or other, "pick", f"{p} can pick {show(r, 5)[:160]} for the public principal", "the well-known key, or the individual is not Public")
        rep.need(n >= 2, "pick:paths", f"{p}: only {n} results seen", f"{n} results")
        rep.use(s)

    class Pick(Base):
        def __init__(self, P, me):
            super().__init__(P)
            self.inline_stop = self.inline_stop + (r"::pick_prekey(_\w+)?$",) + tuple("^" + re.escape(g) + "$" for g in pickers if g != me)
            self.bad, self.n = [], 0

        def keep(self, p): return False

        def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
            t = " ".join(ta)
            if "ShareKey" not in t or "IndividualId" not in t: return None
            name = path.rsplit("::", 1)[-1]
            w = f"{fn.path} ({fn.file}:{line})"
            if name == "insert" and len(args) == 3:
                k, v = (s.strip_mref(fn, st.env, x) for x in args[1:])
                self.n += 1
                if not pair_ok(k, v): self.bad.append(f"{w}: {show(k, 4)[:90]} gets the key {show(v, 4)[:120]}")
            elif name in ("extend", "collect", "from_iter"):
                x = s.strip_mref(fn, st.env, args[-1])
                self.n += 1
                if not picked(x):
                    for e, s2 in s.elems(fn, sim.State(dict(st.env), st.facts), x):
                        e = s.strip_mref(fn, s2.env, e)
                        k, v = parts(e)
                        if not pair_ok(k, v): self.bad.append(f"{w}: {show(k, 4)[:90]} gets the key {show(v, 4)[:120]}")
            elif name in ("entry", "get_mut", "iter_mut", "values_mut", "raw_entry_mut", "or_insert", "or_insert_with", "insert_entry"): self.bad.append(f"{w}: uses {name}")
            return None
    found = 0
    pickers = [f for f in sorted(P.fns) if not P.fns[f].parent and (PICK.search(f) or re.search(r"HashMap<keyhive_core::principal::individual::id::IndividualId, keyhive_crypto::share_key::ShareKey", P.fns[f].locals[0]))]
    for f in pickers:
        found += 1
        c = Pick(P, f)
        s = sim.Sim(P, c)
        rs = [r for r, facts, o in s.entry_mut(f)]
        rep.need(not c.bad, f"picked:{f.replace(KC, '')}", f"{c.bad[:3]}: not picked by pick_prekey", f"{c.n} evaluations of an insertion of a picked key")
        rep.need(c.n or all(picked(r) or r.k in ("call", "phi", "fld") and "pick_individual_prekeys" in show(r, 8) for r in rs), f"picked:sites:{f.replace(KC, '')}", f"{f} neither inserts picked keys nor returns picked ones: {[show(r, 4)[:100] for r in rs[:3]]}", f"{c.n}")
        rep.use(s)
    rep.floor("pickers", found, 2, "functions that pick prekeys for individuals")


def parts(e):
    if e.k == "agg" and e.a[0] == "tup" and len(e.a[3]) == 2: return e.a[3]
    if e.k == "pair": return e.a[0], e.a[1]
    return mk("fld", e, "tup", "0", None), mk("fld", e, "tup", "1", None)


def roots(t):
    while t.k == "fld" or t.k == "call" and len(t.a[1]) >= 1: t = t.a[0] if t.k == "fld" else t.a[1][0]
    if t.k == "phi": return frozenset().union(*(roots(x) for x in t.a[0]))
    return frozenset([t])


def pair_ok(k, v):
    """the key v was picked for the individual k, or both are fixed values"""
    if v.k == "call" and v.a[0].rsplit("::", 1)[-1].startswith("pick_prekey"): return bool(roots(k) & roots(v.a[1][0]))
    if closed(k) and closed(v): return True
    return same_entry(k, v)


def picked(t):
    """t is the result of a picking function"""
    while True:
        if t.k == "call" and re.search(r"pick_individual_prekeys(\.await)?$", t.a[0]): return True
        if t.k == "call" and t.a[1] and t.a[0].rsplit("::", 1)[-1] in ("iter", "into_iter", "clone", "drain"): t = t.a[1][0]
        else: return False


def same_entry(k, v):
    if k.k == "fld" and v.k == "fld" and k.a[2] == "0" and v.a[2] == "1" and k.a[0] is v.a[0] and k.a[0].k == "elem": return picked(k.a[0].a[0])
    return k.k == "key" and v.k == "val" and k.a[0] is v.a[0] and picked(k.a[0])


class Adds(Base):
    """what reaches the key-agreement group"""
    def __init__(self, P, rep, wrap):
        super().__init__(P)
        self.rep, self.wrap = rep, wrap
        self.n = 0
        self.inline_stop = self.inline_stop + (PICK.pattern, r"::pick_prekey$")

    def keep(self, p): return False

    def source(self, s, fn, st, x):
        """x holds (id, key) pairs taken from a picking function (or from the parameter of a private wrapper, judged at its callers)"""
        if picked(x): return True
        if x.k == "param" and base_name(s.stack[0]) == self.wrap.get("path"): return x.a[1] == self.wrap["arg"]
        if x.k == "coll": return (x.a[0] is None or self.source(s, fn, st, x.a[0])) and all(self.pair(s, fn, st, e) for e in x.a[1])
        if x.k == "phi": return all(self.source(s, fn, st, y) for y in x.a[0])
        if x.k == "call" and x.a[1] and x.a[0].rsplit("::", 1)[-1] in ("iter", "into_iter", "clone", "from_vec", "drain", "filter", "collect"): return self.source(s, fn, st, x.a[1][0])
        if x.k == "call" and x.a[0].rsplit("::", 1)[-1] in ("new", "default", "with_capacity") and not x.a[1]: return True
        if x.k == "fld" and x.a[2] == "0" and x.a[0].k == "call": return self.source(s, fn, st, x.a[0])
        return False

    def pair(self, s, fn, st, e):
        if e.k == "agg" and e.a[0] == "tup" and len(e.a[3]) == 2: return self.both(s, fn, st, *e.a[3])
        return e.k == "elem" and self.source(s, fn, st, e.a[0])

    def both(self, s, fn, st, k, v):
        if v.k == "call" and v.a[0].rsplit("::", 1)[-1].startswith("pick_prekey"): return bool(roots(k) & roots(v.a[1][0]))
        if k.k == "key" and v.k == "val" and k.a[0] is v.a[0]: return self.source(s, fn, st, k.a[0])
        if k.k == "fld" and v.k == "fld" and k.a[2] == "0" and v.a[2] == "1" and k.a[0] is v.a[0] and k.a[0].k == "elem": return self.source(s, fn, st, k.a[0].a[0])
        return closed(k) and closed(v)

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        w = f"{fn.path} ({fn.file}:{line})"
        if path == CORE_CGKA + "::add":
            a = [s.strip_mref(fn, st.env, x) for x in args]
            self.n += 1
            self.rep.need(self.both(s, fn, st, a[1], a[2]), f"added:{base_name(fn.path).replace(KC, '')}", f"{w}: {show(a[1], 4)[:100]} is added with the key {show(a[2], 4)[:140]}, which was not picked for them", f"{show(a[2], 3)[:80]}")
        elif path == CORE_CGKA + "::add_multiple":
            a = [s.strip_mref(fn, st.env, x) for x in args]
            self.n += 1
            es = [s.strip_mref(fn, s2.env, e) for e, s2 in s.elems(fn, sim.State(dict(st.env), st.facts), a[1])]
            self.rep.need(self.source(s, fn, st, a[1]) or es and all(self.pair(s, fn, st, e) for e in es), f"added:{base_name(fn.path).replace(KC, '')}", f"{w}: members are added with keys that were not picked for them: {[show(e, 5)[:160] for e in es] or show(a[1], 5)[:200]}", f"{[show(e, 4)[:80] for e in es][:1]}")
        elif self.wrap and path == self.wrap["path"] and base_name(s.stack[0]) != path:
            a = [s.strip_mref(fn, st.env, x) for x in args]
            self.n += 1
            self.rep.need(self.source(s, fn, st, a[self.wrap["arg"]]), f"added-through:{base_name(fn.path).replace(KC, '')}", f"{w}: members are added with {show(a[self.wrap['arg']], 5)[:200]}, which is not the result of picking prekeys", f"{show(a[self.wrap['arg']], 3)[:80]}")
            return [(mk("call", path, tuple(a)), st.facts)]
        return None


def adding(rep, P, G):
    """the keys of the members added to a document come from picking"""
    roots = set()
    for q in (CORE_CGKA + "::add", CORE_CGKA + "::add_multiple"):
        if rep.fn(q): roots |= {base_name(x) for x in G.inn.get(q, ())}
    rep.floor("adders", len(roots), 2, "functions that add members to a document's key group")
    n = 0
    for p in sorted(roots):
        fn = P.fns.get(p)
        wrap = {}
        for i in range(fn.argc):
            if "IndividualId, keyhive_crypto::share_key::ShareKey" in fn.locals[i + 1]: wrap = {"path": p, "arg": i}
        todo = [p]
        if wrap:
            rep.need(fn.vis != "pub" and "Public" not in str(fn.vis), f"private:{p.replace(KC, '')}", f"{p} lets any caller choose the keys of new members but is public", str(fn.vis))
            todo += sorted({base_name(x) for x in G.inn.get(p, ())} - {p})
        for q in todo:
            c = Adds(P, rep, wrap)
            s = sim.Sim(P, c)
            list(s.entry_mut(q))
            n += c.n
            rep.use(s)
    rep.floor("adds", n, 3, "places that add members")


def ancestors(G, ps):
    seen, todo = set(), list(ps)
    while todo:
        x = todo.pop()
        for y in G.inn.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen | set(ps)


OWN = {ACTIVE + "::generate", ACTIVE + "::expand_prekeys", ACTIVE + "::rotate_prekey"}


class Recv(Base):
    def __init__(self, P, rep, touch):
        super().__init__(P)
        self.rep, self.touch = rep, touch
        self.n = 0
        self.bad = []

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        t = res if res in self.touch else path if path in self.touch else None
        if t and base_name(fn.path) != PUB + "::individual":
            self.n += 1
            ok = False
            for q, v in st.facts:
                if q.k == "eq" and not v and any(closed(x) for x in q.a):
                    o = next((x for x in q.a if not closed(x)), None)
                    if o is not None and any(x.k == "param" and x.a[1] == 1 for x in subs(o)): ok = True
            if not ok: self.bad.append(f"{fn.path} ({fn.file}:{line}) calls {path}")
            return [(mk("call", path, tuple(s.strip_mref(fn, st.env, x) for x in args)), st.facts)]
        return None


def receiving(rep, P, G):
    """no received operation reaches Public's prekeys"""
    writers = {}
    for adt, names in ((IND, {"prekeys", "prekey_state"}), (PS, {"ops"})):
        if adt not in P.adts:
            rep.bad(f"anchor:{adt}", f"{adt} is missing")
            continue
        for p, _, f, line, how in effects.field_writes(P, adt, names): writers.setdefault(base_name(p), set()).add(f"{f}:{how}")
    rep.analysed["prekey writers"] = sorted(writers)
    prim = {}
    for p in writers:
        fn = P.fns[p]
        if fn.derived or p in OWN or p == PUB + "::individual" or "Merge>::" in p or p.endswith("::rebuild") or "::generate" in p: continue
        prim[p] = fn
    rep.floor("writers", len(prim), 3, "functions that write prekeys")
    # functions of the API of an individual, which act on the individual they are given
    touch = set(prim)
    for p in list(ancestors(G, prim)):
        b = base_name(p)
        if b in P.fns and (b.startswith((IND + "::", PS + "::")) or b.startswith(f"<{IND} as ")): touch.add(b)
    rep.analysed["prekey primitives"] = sorted(touch)
    roots = [f"{KH}::receive_prekey_op", f"{KH}::receive_contact_card"]
    for p in roots:
        if not rep.fn(p): continue
        c = Recv(P, rep, touch)
        s = sim.Sim(P, c)
        list(s.entry_mut(p))
        rep.need(c.n >= 1, f"received:sites:{p.rsplit('::', 1)[-1]}", f"{p} never stores a prekey", f"{c.n} evaluations of a prekey write")
        rep.need(not c.bad, f"received:{p.rsplit('::', 1)[-1]}", f"a prekey of the public principal can be changed: {c.bad[:2]}: not known to be for another principal", "every write is for a principal known not to be Public")
        rep.use(s)
    # a delegation whose subject is Public is not taken in: Public stays an individual
    p = f"{KH}::receive_delegation"
    if rep.fn(p):
        c = Recv(P, rep, {GS + "::add_delegation", GS + "::new"})
        c.inline_stop = c.inline_stop + (r"Group::rebuild", r"Log::|::on_delegation")
        s = sim.Sim(P, c)
        list(s.entry_mut(p))
        rep.need(c.n >= 2, "subject:sites", f"{p} never takes a delegation in", f"{c.n} evaluations")
        rep.need(not c.bad, "subject", f"the public principal can become a group: {c.bad[:2]}: the subject is not known to be another principal", "a delegation is only taken in for a subject other than Public")
        rep.use(s)
    # nobody else
    allow = OWN | {PUB + "::individual", PUB + "::active"}
    seen, todo, tops = set(), list(touch), set()
    while todo:
        x = todo.pop()
        for y in G.inn.get(x, ()):
            b = base_name(y)
            if b in seen or b in roots or b in allow or b in touch or "Merge>::" in b: continue
            seen.add(b)
            todo += [y, b]
    reached = {b for b in seen if b in P.fns}
    for b in sorted(reached):
        callers = {base_name(y) for y in G.inn.get(b, ())} - {b}
        if callers and P.fns[b].vis != "pub" and "Public" not in str(P.fns[b].vis): continue   # only reached through functions that are judged themselves
        rep.bad(f"other-writer:{b.replace(KC, '')}", f"{b} ({P.fns[b].file}:{P.fns[b].line}) can change the prekeys of a principal outside receive_prekey_op and receive_contact_card")
    rep.ok("other-writers", f"{len(reached)} other functions reach a prekey write")


def registry(rep, P):
    """every new instance knows Public with its well-known key"""
    p = f"{KH}::generate"
    if not rep.fn(p): return

    class Gen(Base):
        def __init__(self, P):
            super().__init__(P)
            self.inline_stop = self.inline_stop + (re.escape(PUB) + "::individual$",)

        def keep(self, p): return False
    s = sim.Sim(P, Gen(P))
    n = 0
    for r, f, o in s.entry_mut(p):
        if r.k == "agg" and r.a[2] == "Err": continue
        n += 1
        rep.need(any(x.k == "call" and x.a[0] == PUB + "::individual" for x in subs(r)), "generate", f"{p} does not register the public principal", "Public.individual() is registered")
    rep.need(n, "generate:paths", f"{p} has no success path", f"{n}")
    rep.use(s)


def invite(rep, P):
    """an invitation of Public is opened with the well-known secret key"""
    p = f"{KH}::receive_cgka_op"
    if not rep.fn(p): return

    class Inv(Base):
        def __init__(self, P):
            super().__init__(P)
            self.seen = []

        def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
            if path.endswith("::merge_cgka_invite_op"):
                a = [s.strip_mref(fn, st.env, x) for x in args]
                self.seen.append((a[-1], [q for q, v in st.facts if v and q.k == "eq"], f"{fn.path} ({fn.file}:{line})"))
            return None
    c = Inv(P)
    s = sim.Sim(P, c)
    list(s.entry_mut(p))
    n = 0
    for sk, eqs, w in c.seen:
        # the added member is Public on this path
        pub = any(any(closed(x) for x in q.a) and any("added_id" in fields(y) for x in q.a for y in subs(x)) for q in eqs)
        if pub:
            n += 1
            rep.need(closed(sk), "invite", f"{w}: an invitation of the public principal is opened with {show(sk, 4)[:120]}", show(sk, 4)[:80])
    rep.need(n, "invite:paths", f"{p} does not treat an invitation of the public principal", f"{n} paths")
    rep.use(s)


def run(rep, P, tier):
    """The values of Public's id and keys are constants (evaluated from their initialisers); pick_prekey returns the well-known key on
    every path on which the individual can be Public; every function that collects prekeys takes them from pick_prekey, and every
    member added to a document's key group comes from such a function; all functions that write prekeys are found by field effects
    and reached only through receive_prekey_op and receive_contact_card, where each write happens only for a principal known not to
    be Public (or from the active user's own prekeys, merges of own state and archives)."""
    G = CallGraph(P)
    constants(rep, P)
    picking(rep, P)
    adding(rep, P, G)
    receiving(rep, P, G)
    registry(rep, P)
    invite(rep, P)
    rep.assume.append("archives and forks that are merged into an instance were made by an instance of the same program, whose Public individual is well-known by the same argument")
