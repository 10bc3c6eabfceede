"""C14: archives capture and restore all persistent state."""
import re
import sim
from sim import mk, subs, show
from kctx import *

IN = {"insert", "push", "push_back", "push_front", "extend", "append", "or_insert", "or_insert_with", "insert_entry", "merge", "merge_async", "send", "extend_from_slice"}
SHORT = {"take", "skip", "step_by", "take_while", "skip_while", "filter", "filter_map", "nth", "first", "last", "find", "map_while", "retain", "truncate", "difference", "intersection", "split_off"}
# what takes elements out of a collection for good
SHRINK = {"retain", "retain_mut", "truncate", "clear", "split_off", "remove", "swap_remove", "remove_entry", "dedup", "dedup_by_key", "dedup_by", "extract_if"}
SAME = {"clone", "cloned", "copied", "to_owned", "into", "from", "coerce", "dupe", "collect", "iter", "into_iter", "values", "into_values", "keys", "as_ref", "deref", "to_vec", "from_vec", "new", "try_from", "into_boxed_slice"}
CACHE = re.compile(r"PhantomData|OnceLock|OnceCell")
ARCH = {"Archive": KC + "archive::Archive", "ActiveArchive": KC + "principal::active::archive::ActiveArchive",
        "GroupArchive": KC + "principal::group::GroupArchive", "GroupStateArchive": KC + "principal::group::state::archive::GroupStateArchive",
        "DocumentArchive": KC + "principal::document::archive::DocumentArchive"}
ACTIVE = KC + "principal::active::Active"
SMO = KC + "principal::group::membership_operation::StaticMembershipOperation"
SE = KC + "event::static_event::StaticEvent"
MO = KC + "principal::group::membership_operation::MembershipOperation"
# the collections every element of which has to be taken over
WHOLE = {"individuals", "groups", "docs", "pending_events", "topsorted_ops", "delegation_heads", "revocation_heads", "after_revocations", "content_heads", "content_state", "prekey_pairs", "ops"}


def strip(t):
    while True:
        if t.k == "call" and t.a[0].rsplit("::", 1)[-1] in SAME and len(t.a[1]) == 1: t = t.a[1][0]
        else: return t


def names(t): return fields(strip(t))


class A(KCtx):
    strict = True

    def __init__(self, P, rep, name):
        super().__init__(P)
        self.rep, self.name = rep, name
        self.ends, self.filt, self.puts = [], [], []
        self.seen = set()

    def opaque(self, p): return p.endswith(("::rebuild", "::ingest_unsorted_static_events", "Cgka::ops"))

    def keep(self, p):
        if p.k == "put": return True
        if p.k == "exhausted": return True
        if p.k == "is": return is_call(p.a[0], "from_vec") or names(p.a[0])[-1:] in (("proof",), ("cgka",))
        if p.k == "eq": return any(names(x)[-1:] == ("issuer",) for x in p.a)
        return False

    def on_filtered(self, s, e, facts, fn): self.filt.append((e, facts, fn.path))

    def on_short(self, s, coll, e, fn, how): self.filt.append((e, frozenset(), f"{how} in {fn.path}"))

    def on_elem_end(self, s, e, facts, fn, line):
        if getattr(s, "adaptor", None) in ("extend", "collect", "map"): return
        k = (e, frozenset(x for x in facts if self.keep(x[0])))
        if k not in self.seen:
            self.seen.add(k)
            self.ends.append((e, k[1], f"{fn.path} ({fn.file}:{line})"))

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        n = path.rsplit("::", 1)[-1]
        if n in SHRINK and args and not path.startswith((KC, "beekem", "keyhive")):
            a = s.strip_mref(fn, st.env, args[0])
            for x in alts(a): self.filt.append((mk("elem", strip(x)), frozenset(), f"{n} in {fn.path}"))
        if re.search(r"store::(delegation|revocation)::\w+Store::(new|default)$", path) or n == "default" and ta and "Store" in ta[0]:
            return [(mk("call", path, (mk("named", f"{fn.path}#{bb}"),)), st.facts)]
        if n in IN and args:
            a = [s.strip_mref(fn, st.env, x) for x in args]
            es = {x for y in a[1:] for x in subs(y) if x.k in ("elem", "val", "key")}
            if n in ("extend", "append", "merge") and len(a) > 1: es.add(mk("elem", a[1]))
            st.facts = st.facts | {(mk("put", e, a[0] if is_call(a[0], "new") else mk("named", "")), True) for e in es}
            k = (path, tuple(a), frozenset(x for x in st.facts if x[0].k in ("is", "eq") or x[0].k == "put" and x[0].a[0].k == "elem" and names(x[0].a[0].a[0])[-1:] == ("after_revocations",)))
            if k not in self.seen:
                self.seen.add(k)
                self.puts.append((path, a, k[2], f"{fn.path} ({fn.file}:{line})"))
        return None


def alts(t):
    if t.k == "phi": return [y for x in t.a[0] for y in alts(x)]
    return [t]


def items(t):
    """what a collection term is known to hold, or None"""
    if t.k == "phi":
        out = []
        for x in t.a[0]:
            y = items(x)
            if y is None: return None
            out += y
        return out
    if t.k == "coll": return list(t.a[1]) if isinstance(t.a[1], (tuple, frozenset, list)) else list(t.a[0])
    return None


def from_coll(x, src):
    """x is made of an element of the collection that `src` recognises"""
    return any(y.k in ("elem", "val", "key") and src(strip(y.a[0])) and not short(y.a[0]) for y in subs(x))


def short(t): return any(y.k == "call" and y.a[0].rsplit("::", 1)[-1] in SHORT for y in subs(t))


def covers(t, src):
    """t is the whole of the value or collection that `src` recognises"""
    for x in alts(t):
        y = strip(x)
        if src(y): continue
        it = items(y)
        if it is None: return False
        if it and not all(from_coll(z, src) for z in it): return False
    return any(src(strip(x)) or items(strip(x)) for x in alts(t))


def at(base, *path):
    """recognises base.path"""
    def f(y):
        r, p = fpath(y)
        if p[-len(path):] != path: return False
        b = y
        for _ in path: b = b.a[0]
        return base(b)
    return f


def param(i): return lambda y: y.k == "param" and y.a[1] == i


def run(rep, P, tier):
    """The archive an instance is saved to is computed as a symbolic term on every path: each of its fields has to be the whole of the
    state it stands for, and no loop over that state may end an iteration without having taken the element over. The same is asked of the
    instance made from an archive (down to the fields of groups, documents and operations, and the very stores they are put into) and of
    ingesting an archive. The derived and manual serialisers of every type an archive can hold, found by type, must write every field
    except caches, and their clones must copy every field."""
    for f in (save, load, ingest, static, closure, explore): f(rep, P)
    rep.assume += ["`serde`'s implementations for standard types and third-party types round-trip",
                   "members and the revocations in force are recomputed from the heads and the operations when an archive is loaded (C04)"]


def ends(rep, c, key, allow=lambda e, f: False):
    seen = set()
    for e, facts, w in c.ends:
        inner = top(e)
        for x in inner:
            f = names(x.a[0])[-1:] or (names(x.a[0].a[1][0])[-1:] if x.a[0].k == "call" and x.a[0].a[1] else ())
            if not f or f[0] not in WHOLE: continue
            if not over_archive(x, c.name): continue
            seen.add(f[0])
            done = any(p.k == "put" and v and (p.a[0] is x or x in set(subs(p.a[0])) or p.a[0].k == "elem" and p.a[0].a[0] is x.a[0]) for p, v in facts)
            rep.need(done or allow(x, facts), f"{key}:each:{f[0]}", f"{w}: a path goes on to the next of `{f[0]}` without having taken this one over: {show(x, 4)[:160]}", f"every element of {f[0]} is taken over")
            if c.name == "load" and e.k == "agg" and f[0] in ("groups", "docs"):
                for h in ("delegation_heads", "revocation_heads"):
                    rep.need(any(q.k == "exhausted" and v and names(q.a[0])[-1:] == (h,) and x in set(subs(q.a[0])) for q, v in facts), f"load:{f[0]}.{h}.all", f"{w}: the {h} of one of the {f[0]} may have been gone through only in part", f"all {h}")
            rep.need(not short(x), f"{key}:each:{f[0]}", f"{w}: only part of `{f[0]}` is gone through: {show(x, 4)[:160]}")
    for e, facts, w in c.filt:
        for x in top(e):
            f = names(x.a[0])[-1:] or (names(x.a[0].a[1][0])[-1:] if x.a[0].k == "call" and x.a[0].a[1] else ())
            if any(is_call(y, "reverse_topsort", "ops") for y in subs(x.a[0])) and over_archive(x, c.name): f = ("topsorted_ops",)
            if f and f[0] in WHOLE and over_archive(x, c.name) and not (x is e and allow(x, facts)):
                rep.bad(f"{key}:each:{f[0]}", f"{w}: an element of `{f[0]}` is left out by a filter: {show(e, 4)[:160]}")
    return seen


def top(e):
    """the elements e is made of, without those their collections belong to"""
    if e.k in ("elem", "val", "key"): return [e]
    xs = {x for x in subs(e) if x.k in ("elem", "val", "key")}
    return [x for x in xs if not any(y is not x and x in set(subs(y)) for y in xs)]


def gone(rep, key, facts, src, what, where):
    """everything the recognised collection holds has been gone through"""
    rep.need(any(q.k == "exhausted" and v and any(src(strip(y)) for y in subs(q.a[0])) for q, v in facts), key, f"{where}: `{what}` may have been gone through only in part", f"all of {what}")


def direct(t, src): return all(src(strip(x)) for x in alts(t))


def over_archive(x, name):
    roots = [y for y in subs(x) if y.k == "param"]
    if name == "save": return any(y.a[1] == 0 for y in roots)
    return any("rchive" in str(y.a) for y in roots)


def adt(t, path): return t.k == "agg" and t.a[0] == "adt" and t.a[1] == path


def group_archive(rep, s, key, t, grp):
    """t: GroupArchive term of the group recognised by grp"""
    for x in alts(t):
        if not rep.need(adt(x, ARCH["GroupArchive"]), f"{key}:group", f"not an archive of the group: {show(x, 4)[:200]}"): return
        rep.need(covers(s.field(x, ARCH["GroupArchive"], "id_or_indie"), at(grp, "id_or_indie")), f"{key}:id_or_indie", f"the archived identity is not the group's: {show(x, 4)[:200]}", "group identity")
        for z in alts(s.field(x, ARCH["GroupArchive"], "state")):
            if not rep.need(adt(z, ARCH["GroupStateArchive"]), f"{key}:state", f"not an archive of the group's state: {show(z, 4)[:200]}"): continue
            rep.need(covers(s.field(z, ARCH["GroupStateArchive"], "id"), at(grp, "state", "id")), f"{key}:id", f"the archived id is not the group's: {show(z, 4)[:200]}", "group id")
            for h in ("delegation_heads", "revocation_heads"):
                v = s.field(z, ARCH["GroupStateArchive"], h)
                rep.need(covers(v, at(grp, "state", h)), f"{key}:{h}", f"the archived {h} are not those of the group: {show(v, 5)[:200]}", h)


def save(rep, P):
    p = KH + "::into_archive"
    if not rep.fn(p): return
    c = A(P, rep, "save"); s = sim.Sim(P, c)
    me = param(0)
    n = 0
    AR = ARCH["Archive"]
    for ret, facts, outs in s.entry_mut(p):
        for x in alts(ret):
            n += 1
            if not rep.need(adt(x, AR), "save:archive", f"{p} returns something that is not made here: {show(x, 4)[:200]}"): continue
            for y in alts(s.field(x, AR, "active")):
                if not rep.need(adt(y, ARCH["ActiveArchive"]), "save:active", f"the active agent is not archived: {show(y, 4)[:200]}"): continue
                for f in ("prekey_pairs", "individual"):
                    v = s.field(y, ARCH["ActiveArchive"], f)
                    rep.need(covers(v, at(me, "active", f)), f"save:active.{f}", f"{p}: the archive's active.{f} is not the active agent's: {show(v, 4)[:200]}", f"active.{f}")
            for f in ("individuals", "pending_events"):
                v = s.field(x, AR, f)
                rep.need(whole_or_empty(v, at(me, f)), f"save:{f}", f"{p}: the archive's {f} are not the instance's: {show(v, 4)[:200]}", f)
                if items(v) != []: rep.ok(f"save:{f}.some")
                if not direct(v, at(me, f)): gone(rep, f"save:{f}.all", facts, at(me, f), f, p)
            for f in ("groups", "docs"):
                v = s.field(x, AR, f)
                it = items(v)
                gone(rep, f"save:{f}.all", facts, at(me, f), f, p)
                rep.need(it is not None and whole_or_empty(v, at(me, f)), f"save:{f}", f"{p}: the archive's {f} are not the instance's: {show(v, 4)[:200]}", f)
                for z in it or []:
                    one = lambda y: y.k == "fld" and y.a[2] == "1" and y.a[0].k == "elem" and at(me, f)(strip(y.a[0].a[0])) or y.k == "val" and at(me, f)(strip(y.a[0]))
                    if not (z.k == "agg" and z.a[0] == "tup" and len(z.a[3]) == 2): rep.bad(f"save:{f}", f"{p}: an entry of {f} is not (id, archive): {show(z, 4)[:200]}"); continue
                    k, a = z.a[3]
                    rep.ok(f"save:{f}.one")
                    if f == "groups": group_archive(rep, s, "save:groups", a, one)
                    else:
                        DA = ARCH["DocumentArchive"]
                        for y in alts(a):
                            if not rep.need(adt(y, DA), "save:docs.doc", f"not an archive of the document: {show(y, 4)[:200]}"): continue
                            group_archive(rep, s, "save:docs", s.field(y, DA, "group"), at(one, "group"))
                            for g in ("content_heads", "content_state", "cgka"):
                                rep.need(covers(s.field(y, DA, g), at(one, g)), f"save:docs.{g}", f"{p}: the archived {g} is not the document's: {show(s.field(y, DA, g), 4)[:200]}", g)
            topsorted(rep, p, s.field(x, AR, "topsorted_ops"), me)
    rep.need(n, "save:paths", f"{p} returns nothing")
    seen = ends(rep, c, "save")
    rep.use(s)
    rep.expect("save:groups.one", "save:docs.one", "save:groups:delegation_heads", "save:docs:revocation_heads", "save:ops.Delegation", "save:ops.Revocation", "save:individuals.some", "save:pending_events.some")


def whole_or_empty(v, src):
    its = items(v)
    if its is None: return covers(v, src)
    return all(from_coll(z, src) for z in its)


def topsorted(rep, p, v, me):
    its = items(v)
    if its is None and covers(v, lambda y: is_call(y, "reverse_topsort")): return rep.ok("save:ops.Delegation") or rep.ok("save:ops.Revocation")
    if not rep.need(its is not None, "save:ops", f"{p}: the archived operations are not a list made here: {show(v, 4)[:200]}"): return
    for z in its:
        src = [y for y in subs(z) if is_call(y, "reverse_topsort")]
        ok = src and all(len(y.a[1]) == 2 and at(me, "delegations")(strip(y.a[1][0])) and at(me, "revocations")(strip(y.a[1][1])) for y in src) and not short(z)
        rep.need(ok, "save:ops", f"{p}: an archived operation is not one of all delegations and revocations of the instance: {show(z, 5)[:200]}", "operations of the two stores")
        for y in subs(z):
            if y.k == "agg" and y.a[1] in (SMO,) : rep.ok(f"save:ops.{y.a[2]}")
            if y.k == "agg" and y.a[1] == SIGNED:
                rep.need(all(any(q.k == "fld" and q.a[2] == f for q in subs(x)) for x, f in zip(y.a[3][1:3], ("issuer", "signature"))), "save:ops.signed", f"{p}: the archived operation is not signed as the original: {show(y, 4)[:200]}", "issuer and signature of the original")


def load(rep, P):
    p = KH + "::try_from_archive"
    if not rep.fn(p): return
    c = A(P, rep, "load"); s = sim.Sim(P, c)
    me = lambda y: y.k == "param" and "rchive" in str(y.a)
    n = 0
    heads, stores = {"delegation_heads": set(), "revocation_heads": set()}, {"delegations": set(), "revocations": set()}
    GRPF = lambda t, f: s.field(t, GR, f)
    for ret, facts, outs in s.entry_mut(p):
        for r in alts(ret):
            if not (r.k == "agg" and r.a[2] in ("Ok", "Err")): rep.bad("load:result", f"{p} returns neither Ok nor Err: {show(r, 4)[:200]}"); continue
            if r.a[2] == "Err": continue
            for x in alts(r.a[3][0]):
                n += 1
                if not rep.need(adt(x, KH), "load:instance", f"{p} returns an instance not made here: {show(x, 4)[:200]}"): continue
                v = s.field(x, KH, "verifying_key")
                rep.need(any(y.k == "fld" and y.a[2] == "individual" or y.k == "param" and "signer" in str(y.a) for y in subs(v)), "load:verifying_key", f"{p}: the instance's key is not the archived identity's: {show(v, 5)[:200]}", "verifying_key")
                for y in alts(s.field(x, KH, "active")):
                    if not rep.need(adt(y, ACTIVE), "load:active", f"{p}: the active agent is not made from the archive: {show(y, 4)[:200]}"): continue
                    for f in ("prekey_pairs", "individual"):
                        v = s.field(y, ACTIVE, f)
                        rep.need(covers(v, at(me, "active", f)), f"load:active.{f}", f"{p}: the active agent's {f} is not the archived one: {show(v, 4)[:200]}", f"active.{f}")
                v = s.field(x, KH, "individuals")
                rep.need(all(from_coll(z, at(me, "individuals")) or any(at(me, "active", "individual")(y) for y in subs(z)) for z in items(v) or []) and items(v) is not None, "load:individuals", f"{p}: the individuals are not the archived ones: {show(v, 4)[:200]}", "individuals")
                v = s.field(x, KH, "pending_events")
                for f in ("individuals", "groups", "docs", "topsorted_ops", "pending_events"):
                    if not (f == "pending_events" and direct(v, at(me, f))): gone(rep, f"load:{f}.all", facts, at(me, f), f, p)
                rep.need(whole_or_empty(v, at(me, "pending_events")), "load:pending_events", f"{p}: the pending events are not the archived ones: {show(v, 4)[:200]}", "pending_events")
                for f in stores:
                    v = s.field(x, KH, f)
                    rep.need(is_call(v, "new", "default"), f"load:{f}", f"{p}: the store of {f} is not made here: {show(v, 4)[:160]}")
                    stores[f].add(v)
                for f in ("groups", "docs"):
                    v = s.field(x, KH, f)
                    it = items(v)
                    rep.need(it is not None and whole_or_empty(v, at(me, f)), f"load:{f}", f"{p}: the {f} are not the archived ones: {show(v, 4)[:200]}", f)
                    for z in it or []:
                        one = lambda y: y.k == "fld" and y.a[2] == "1" and y.a[0].k == "elem" and at(me, f)(strip(y.a[0].a[0])) or y.k == "val" and at(me, f)(strip(y.a[0]))
                        if not (z.k == "agg" and z.a[0] == "tup" and len(z.a[3]) == 2): rep.bad(f"load:{f}", f"{p}: an entry of {f} is not (id, value): {show(z, 4)[:200]}"); continue
                        k, a = z.a[3]
                        rep.need(k.k == "fld" and k.a[2] == "0" or k.k == "key" or any(y.k == "fld" and y.a[2] == "id" for y in subs(k)), f"load:{f}.key", f"{p}: filed under {show(k, 4)[:120]}", "under its own id")
                        for y in alts(a):
                            if f == "docs":
                                if not rep.need(obj(y, DOC), "load:docs.doc", f"{p}: not a document made from the archive: {show(y, 4)[:160]}"): continue
                                for g in ("content_heads", "content_state", "cgka"):
                                    rep.need(covers(s.field(y, DOC, g), at(one, g)), f"load:docs.{g}", f"{p}: the document's {g} is not the archived one: {show(s.field(y, DOC, g), 4)[:200]}", g)
                                gs, src = alts(s.field(y, DOC, "group")), at(one, "group")
                            else: gs, src = [y], one
                            for g in gs:
                                if not rep.need(obj(g, GR), f"load:{f}.group", f"{p}: not a group made from the archive: {show(g, 4)[:160]}"): continue
                                rep.need(covers(GRPF(g, "id_or_indie"), at(src, "id_or_indie")), f"load:{f}.id_or_indie", f"{p}: the identity is not the archived one: {show(g, 4)[:160]}", "identity")
                                for z_ in alts(GRPF(g, "state")):
                                    if not rep.need(obj(z_, GS), f"load:{f}.state", f"{p}: not a state made from the archive: {show(z_, 4)[:160]}"): continue
                                    rep.need(covers(s.field(z_, GS, "id"), at(src, "state", "id")), f"load:{f}.id", f"{p}: the id is not the archived one: {show(z_, 4)[:160]}", "id")
                                    for h in heads: heads[h].add(s.field(z_, GS, h))
                                    for h in stores:
                                        rep.need(s.field(z_, GS, h) in stores[h], f"load:{f}.{h}", f"{p}: the {f} do not use the instance's store of {h}: {show(s.field(z_, GS, h), 4)[:160]}", "the instance's store")
    rep.need(n, "load:paths", f"{p} never succeeds")

    def allow(x, facts):
        # a delegation that cannot be a root of this group
        return names(x.a[0])[-1:] == ("delegation_heads",) and any(p_.k == "eq" and not v for p_, v in facts) and any(p_.k == "is" and (p_.a[1] == "None") == v for p_, v in facts)
    ends(rep, c, "load", allow)
    # the operations are put into the instance's stores, the heads into the groups' heads
    base = lambda y: y.k == "fld" and y.a[2] == "1" and y.a[0].k == "elem" and at(me, "topsorted_ops")(strip(y.a[0].a[0]))
    got = set()
    for path, a, facts, w in c.puts:
        m = re.search(r"store::(delegation|revocation)::\w+Store::insert", path)
        if not m or len(a) < 2: continue
        kind = m.group(1)
        for v in alts(a[1]):
            if adt(v, SIGNED):
                got.add(kind)
                rep.need(a[0] in stores[kind + "s"], f"load:op.{kind}.store", f"{w}: the archived {kind} is put into another store than the instance's", "the instance's store")
                operation(rep, s, kind, v, facts, base, w)
            elif is_call(v, "get") or v.k == "fld":
                h = "delegation_heads" if kind == "delegation" else "revocation_heads"
                got.add(h)
                rep.need(a[0] in heads[h] and any(names(y.a[0])[-1:] == (h,) for y in subs(v) if y.k == "elem"), f"load:{h}", f"{w}: the {kind} is not put among the group's {h}: {show(v, 5)[:200]}", f"the archived {h} become the group's")
    rep.expect("load:op.delegation.after_revocations.some")
    for k in ("delegation", "revocation", "delegation_heads", "revocation_heads"):
        rep.need(k in got, f"load:puts.{k}", f"{p} does not restore any {k}", "restored")
    rep.use(s)


def obj(t, path):
    while t.k == "upd": t = t.a[0]
    return adt(t, path) or t.k in ("mut", "deep")


def operation(rep, s, kind, v, facts, base, w):
    own = lambda y: y.k == "fld" and y.a[2] == "0" and base(y.a[0])
    A_ = DLG if kind == "delegation" else REV
    for f in ("issuer", "signature"):
        x = s.field(v, SIGNED, f)
        rep.need(at(own, f)(strip(x)), f"load:op.{kind}.{f}", f"{w}: the {f} of the restored {kind} is not the archived one: {show(x, 5)[:160]}", f)
    pl = s.field(v, SIGNED, "payload")
    same, via = (("can", "after_content"), ("delegate", "after_revocations")) if kind == "delegation" else (("after_content",), ("revoke",))
    for f in same:
        rep.need(covers(s.field(pl, A_, f), at(own, "payload", f)), f"load:op.{kind}.{f}", f"{w}: `{f}` of the restored {kind} is not the archived one: {show(s.field(pl, A_, f), 5)[:160]}", f)
    for f in via:
        x = s.field(pl, A_, f)
        it = items(x)
        if it: rep.ok(f"load:op.{kind}.{f}.some")
        none = it == [] and not any(q.k == "put" and v_ and names(q.a[0].a[0])[-1:] == (f,) for q, v_ in facts)
        rep.need(none or any(y.k in ("fld",) and y.a[2] == f and at(own, "payload", f)(y) for y in subs(x)), f"load:op.{kind}.{f}", f"{w}: `{f}` of the restored {kind} is not the archived one: {show(x, 5)[:160]}", f)
    x = s.field(pl, A_, "proof")
    for y in alts(x):
        if y.k == "agg" and y.a[2] == "None":
            ok = any(q.k == "is" and at(own, "payload", "proof")(strip(q.a[0])) and (q.a[1] == "None") == t for q, t in facts)
        else: ok = any(at(own, "payload", "proof")(q) for q in subs(y))
        rep.need(ok, f"load:op.{kind}.proof", f"{w}: the proof of the restored {kind} is not the archived one: {show(y, 5)[:160]}", "proof")


def ingest(rep, P):
    p = KH + "::ingest_archive"
    if not rep.fn(p): return
    c = A(P, rep, "ingest"); s = sim.Sim(P, c)
    me = lambda y: y.k == "param" and "rchive" in str(y.a)
    n = 0
    for ret, facts, outs in s.entry_mut(p):
        for r in alts(ret):
            if not (r.k == "agg" and r.a[2] == "Ok"): continue
            n += 1
            for f in ("prekey_pairs", "individual"):
                rep.need(any(q.k == "put" and v and q.a[0].k == "elem" and at(me, "active", f)(strip(q.a[0].a[0])) for q, v in facts), f"ingest:active.{f}", f"{p} can succeed without having taken over the archived active.{f}", "taken over")
            for f in ("individuals", "docs"): gone(rep, f"ingest:{f}.all", facts, at(me, f), f, p)
            call = [y for y in subs(r) if is_call(y, "ingest_unsorted_static_events", "ingest_unsorted_static_events.await")]
            if not rep.need(call, "ingest:events", f"{p} succeeds without ingesting the archive's operations"): continue
            for x in call:
                it = items(x.a[1][1])
                if not rep.need(it is not None, "ingest:events", f"{p}: what is ingested is not a list made here: {show(x, 4)[:200]}"): continue
                for z in it: rep.need(any(me(y) for y in subs(z)) and not short(z), "ingest:events.own", f"{p}: an ingested event is not the archive's, or only part of the archive's are: {show(z, 5)[:200]}", "events of the archive")
                has = lambda f, v: any(z.k == "agg" and z.a[2] == v and from_coll(z, at(me, f)) for z in it)
                for v in ("Delegated", "Revoked"): rep.need(has("topsorted_ops", v), f"ingest:{v}", f"{p}: the archived operations of kind {v} are not ingested on a path: {show(x.a[1][1], 4)[:200]}", v)
                rep.need(any(from_coll(z, at(me, "pending_events")) and z.k == "elem" for z in it), "ingest:pending_events", f"{p}: the archived pending events are not ingested on a path: {show(x.a[1][1], 4)[:200]}", "pending events")
                if any(z.k == "agg" and z.a[2] == "CgkaOperation" for z in it): rep.ok("ingest:cgka")
    rep.need(n, "ingest:paths", f"{p} never succeeds")
    rep.expect("ingest:cgka")
    ends(rep, c, "ingest", lambda x, facts: names(x.a[0])[-1:] == ("docs",) and any(
        q.k == "is" and names(q.a[0])[-1:] == ("cgka",) and (q.a[1] == "None") == v or
        q.k == "exhausted" and v and is_call(strip(q.a[0]).a[0] if strip(q.a[0]).k == "fld" else strip(q.a[0]), "ops") and x in set(subs(q.a[0])) for q, v in facts))
    # a document's key tree operations: every document, every epoch, every operation
    for e, facts, w in c.ends:
        deep = sum(y.k in ("elem", "val") for y in subs(e))
        if e.k in ("elem", "val") and any(is_call(y, "ops") for y in subs(e)):
            twice = e.k == "elem" and e.a[0].k == "elem"
            done = any(q.k == "put" and v and (q.a[0] is e) for q, v in facts)
            if twice: rep.need(done and not short(e), "ingest:cgka.each", f"{w}: a key-tree operation of the archive is passed over: {show(e, 5)[:160]}", "every operation")
            else: rep.need(not short(e), "ingest:cgka.epochs", f"{w}: an epoch is passed over", "every epoch")
        elif e.k in ("elem", "val") and names(e.a[0])[-1:] == ("docs",) and over_archive(e, "ingest"): pass
    filt = [x for x in c.filt if any(is_call(y, "ops") or names(y)[-1:] == ("docs",) for y in subs(x[0]))]
    rep.need(not filt, "ingest:cgka.filter", f"{p}: part of the documents' key-tree operations is left out by a filter", "no filter")
    merged = {"prekey_pairs": False, "individual": False}
    for path, a, facts, w in c.puts:
        if len(a) > 1:
            for f in merged:
                if at(me, "active", f)(strip(a[1])) and names(a[0])[-2:] == ("active", f): merged[f] = True
    for f, v in merged.items(): rep.need(v, f"ingest:active.{f}", f"{p}: the archived active.{f} is not taken over", "taken over")
    # what merging individuals does
    rep.use(s)
    for p2, fs in ((f"<{IND} as {KC}transact::merge::Merge>::merge", ("prekey_state", "ops")),):
        if not rep.fn(p2): continue
        c2 = A(P, rep, "merge"); s2 = sim.Sim(P, c2)
        for ret, facts, outs in s2.entry_mut(p2):
            rep.need(any(q.k == "exhausted" and v and any(names(y)[-2:] == fs and fpath(y)[0].k == "param" and fpath(y)[0].a[1] == 1 for y in subs(q.a[0])) for q, v in facts), "merge:all", f"{p2} can return without having gone through all prekey operations of the other", "all prekey operations")
        ok = any(len(a) > 1 and any(names(y)[-2:] == fs and fpath(y)[0].k == "param" and fpath(y)[0].a[1] == 1 for z in a[1:] for y in subs(z)) and any(names(y)[-2:] == fs and fpath(y)[0].k == "param" and fpath(y)[0].a[1] == 0 for y in subs(a[0])) for path, a, facts, w in c2.puts)
        rep.need(ok, "merge:individual", f"{p2} does not take over the other's prekey operations", "prekey operations")
        for e, facts, w in c2.ends:
            if e.k == "elem" and names(e.a[0])[-1:] == ("ops",): rep.need(any(q.k == "put" and v and (q.a[0] is e or e in set(subs(q.a[0]))) for q, v in facts), "merge:each", f"{w}: a prekey operation is passed over", "every prekey operation")
        rep.need(not c2.filt or all(names(x[0].a[0])[-1:] != ("ops",) for x in c2.filt if x[0].k == "elem"), "merge:filter", f"{p2}: prekey operations are left out by a filter")
        rep.use(s2)


def static(rep, P):
    """the archived forms of the operations say everything the operations say"""
    for a, b, fs in ((DLG, "StaticDelegation", ("can", "proof", "delegate", "after_revocations", "after_content")), (REV, "StaticRevocation", ("revoke", "proof", "after_content"))):
        st = f"{a.rsplit('::', 1)[0]}::{b}"
        f = next((x for x in P.fns if x.startswith(f"<{st}<T> as core::convert::From<{a}<") and x.endswith(">::from")), None)
        if not rep.need(f, f"static:{b}", f"no conversion from {a} to {st}"): continue
        s = sim.Sim(P, A(P, rep, "static"))
        said = set()
        for ret, facts, outs in s.entry_mut(f):
            for x in alts(ret):
                if not rep.need(adt(x, st), f"static:{b}", f"{f} returns {show(x, 4)[:160]}"): continue
                for g in fs:
                    v = s.field(x, st, g)
                    ok = all(any(y.k == "fld" and y.a[2] == g for y in subs(z)) or z.k == "agg" and z.a[2] == "None" and any(q.k == "is" and names(q.a[0])[-1:] == (g,) and (q.a[1] == "None") == t for q, t in facts) or items(z) == [] for z in alts(v))
                    if any(y.k == "fld" and y.a[2] == g for y in subs(v)): said.add(g)
                    rep.need(ok and not short(v), f"static:{b}.{g}", f"{f}: `{g}` of the archived form is not the operation's: {show(v, 4)[:160]}", g)
        for g in fs: rep.need(g in said, f"static:{b}.{g}", f"{f}: `{g}` of the archived form is never the operation's")
        rep.use(s)


def closure(rep, P):
    """every type an archive can hold writes and reads all of its fields, and is cloned with all of them"""
    todo, seen = [ARCH["Archive"]], set()
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        for v in P.adts[x]["variants"]:
            for n, t, vis in v[1]:
                for y in re.findall(r"[\w:]+::\w+", t):
                    if y in P.adts and y not in seen: todo.append(y)
    seen.discard("")
    head = lambda t: re.sub(r"<.*", "", t)
    ser = {}
    for tr, k in (("serde_core::ser::Serialize::serialize", "ser"), ("serde_core::de::Deserialize::deserialize", "de"), ("core::clone::Clone::clone", "clone")):
        for im, ip in P.by_trait.get(tr, []): ser.setdefault(head(im["self"]), {})[k] = (im, ip)
    n = m = 0
    for x in sorted(seen):
        a = P.adts[x]
        short_ = x.rsplit("::", 1)[-1]
        fs = [(v[0], f, t) for v in a["variants"] for f, t, _ in v[1] if not CACHE.search(t)]
        if not fs: continue
        got = ser.get(x, {})
        if "ser" in got:
            n += 1
            read = reads(P, got["ser"][1], x)
            for v, f, t in fs:
                rep.need((v if a["enum"] else "", f) in read or ("", f) in read, f"write:{short_}.{f}", f"{got['ser'][1]} does not write `{f}`: it is missing from every archive", "written")
            if "de" in got and got["de"][0]["derived"] and not a["enum"]:
                seq = [g for g in P.fns.values() if g.path.startswith(f"<{got['de'][1]}::__Visitor") and g.path.endswith("::visit_seq")] or [g for g in P.fns.values() if got["de"][1] in g.path and g.path.endswith("::visit_seq")]
                nx = sum(1 for g in seq for b in g.blocks if b[1][0] == "call" and (P.callee(g, b[1][1]) or ("",))[0].endswith("::next_element"))
                if seq: rep.need(nx >= len(fs), f"read:{short_}", f"{seq[0].path} reads {nx} of the {len(fs)} fields", f"{nx} fields read")
        if "clone" in got and not got["clone"][0]["derived"]:
            s = sim.Sim(P, KCtx(P))
            m += 1
            for ret, facts, outs in s.entry_mut(got["clone"][1]):
                for y in alts(ret):
                    if y.k == "param": continue
                    for v, f, t in fs:
                        if y.k == "agg" and y.a[1] == x and (not a["enum"] or y.a[2] == v):
                            z = s.field(y, x, f)
                            rep.need(any(q.k == "fld" and q.a[2] == f for q in subs(z)), f"clone:{short_}.{f}", f"{got['clone'][1]} does not copy `{f}`: {show(z, 4)[:120]}", "copied")
            rep.use(s)
    rep.floor("archived_types", n, 25, "serialisable types an archive can hold")
    rep.analysed["manual_clones"] = m


def reads(P, path, adt_):
    """fields of the type that the function, its closures and its helpers on the type look at"""
    out, todo, seen = set(), [path], set()
    while todo:
        p = todo.pop()
        if p in seen or p not in P.fns: continue
        seen.add(p)
        f = P.fns[p]
        todo += [g.path for g in P.children.get(p, [])]

        def place(pl):
            var = ""
            for e in pl[1:]:
                if e[0] == "f" and f.strs[e[3]] == adt_: out.add(("", e[2])); out.add((f.strs[e[4]] if len(e) > 4 and isinstance(e[4], int) else (e[4] if len(e) > 4 else ""), e[2]))
        def walk(o):
            if isinstance(o, (list, tuple)):
                if o and isinstance(o[0], int) and len(o) > 1 and isinstance(o[1], (list, tuple)): place(o)
                for y in o: walk(y)
        for b in f.blocks:
            for s_ in b[0]: walk(s_)
            walk(b[1])
            t = b[1]
            if t[0] == "call":
                c = P.callee(f, t[1])
                if c and adt_ in (f.locals[1] if len(f.locals) > 1 else "") and c[1] in P.fns and c[1].startswith((adt_ + "::",)): todo.append(c[1])
    return out


def explore(rep, P):
    """reverse_topsort starts from every operation of both stores and keeps every operation it comes to"""
    p = MO + "::reverse_topsort"
    if not rep.fn(p): return

    class X(A):
        tokens = True
        def keep(self, q): return q.k == "put"
        def opaque(self, q): return q.endswith(("::after_auth", "::digest"))
    c = X(P, rep, "topsort"); s = sim.Sim(P, c)
    c.inline_stop = tuple(x for x in c.inline_stop if "reverse_topsort" not in x)
    outs = s.entry_mut(p)
    for i, kind in ((0, "delegations"), (1, "revocations")):
        src = lambda y: (is_call(y, "values", "iter", "into_iter", "keys") and param(i)(strip(y.a[1][0]))) or param(i)(strip(y))
        es = [(e, f, w) for e, f, w in c.ends if e.k in ("elem", "val") and src(e.a[0])]
        rep.need(es, f"topsort:{kind}", f"{p} does not start from the {kind} it is given", f"starts from the {kind}")
        for e, f, w in es: rep.need(any(q.k == "put" and v and q.a[0] is e for q, v in f), f"topsort:{kind}", f"{w}: one of the {kind} is passed over")
        for e, f, w in c.filt: rep.need(not (e.k in ("elem", "val") and src(e.a[0])), f"topsort:{kind}", f"{w}: the {kind} are filtered")
    rep.use(s)
