"""C13: content-addressed stores hold values under their own hash."""
import re
import sim
from sim import mk, subs, show
from kctx import *
import effects

DIGEST = "keyhive_crypto::digest::Digest"
DIG = DIGEST + "<"
HASH = DIGEST + "::hash"
MAP = re.compile(r"^(std::collections::hash::map::HashMap|alloc::collections::btree::map::BTreeMap)<")
READ = {"get", "contains_key", "len", "is_empty", "iter", "keys", "values", "into_keys", "into_values", "clone", "into_iter", "get_key_value", "first_key_value", "last_key_value", "range", "capacity", "eq", "ne", "fmt", "deref", "hash", "serialize", "index", "hasher", "next", "cmp", "partial_cmp", "size_hint"}
LESS = {"remove", "remove_entry", "clear", "retain", "drain", "extract_if", "shrink_to_fit", "reserve", "pop_first", "pop_last", "split_off"}
INPLACE = {"get_mut", "values_mut", "iter_mut", "and_modify", "into_mut", "index_mut", "first_entry", "last_entry", "get_or_insert_with", "try_insert", "get_many_mut", "get_disjoint_mut", "range_mut", "raw_entry_mut", "entry_ref"}


def targs(t):
    """the type arguments of a type string"""
    if "<" not in t: return []
    depth, out, cur = 0, [], ""
    for c in t[t.index("<") + 1:-1]:
        if c == "," and depth == 0:
            out.append(cur.strip()); cur = ""
            continue
        depth += c in "<(["
        depth -= c in ">)]"
        cur += c
    return out + [cur.strip()]


def values_of(v):
    """the types stored in a map value: Arc<X> and tuples are looked through"""
    if v.startswith("("): return [y for x in targs("<" + v[1:-1] + ">") for y in values_of(x)]
    if v.startswith(("alloc::rcs::arc::Arc<", "alloc::sync::Arc<", "alloc::rcs::rc::Rc<", "alloc::boxed::Box<")): return values_of(targs(v)[0])
    return [v]


def store_type(t):
    """(K, V) of a map from the hash of X to X"""
    if not MAP.match(t): return None
    a = targs(t)
    if len(a) < 2 or not a[0].startswith(DIG): return None
    x = targs(a[0])[0]
    return (a[0], a[1]) if x in values_of(a[1]) else None


class M(KCtx):
    def __init__(self, P, rep, types):
        super().__init__(P)
        self.rep, self.types = rep, types
        self.inline_stop = tuple(x for x in self.inline_stop if "CaMap" not in x and "Store" not in x)
        self.n = 0
        self.checked = set()

    def opaque(self, p): return p == HASH

    def keep(self, p): return p.k in ("is", "eq", "lt", "iterating", "exhausted")

    def pair(self, s, k, v):
        """k is the hash of (one of) v, or both are an entry of another content-addressed map"""
        for x in parts(v):
            if k is mk("call", HASH, (x,)): return True
            # an entry of another store, or of this one
            if k.k == "fld" and x.k == "fld" and k.a[0] is x.a[0] and k.a[2] == "0" and x.a[2] == "1" and k.a[0].k == "elem" and stored(k.a[0].a[0]): return True
            if k.k == "key" and x.k == "val" and k.a[0] is x.a[0] and stored(k.a[0]): return True
        return False

    def same(self, facts, k, v):
        """checked on this path to be equal to the hash"""
        for x in parts(v):
            h = mk("call", HASH, (x,))
            if (sim.mk_eq(h, k), True) in facts:
                self.checked.add((k, v))    # every insertion is judged where it happens
                return True
        return False

    def item(self, s, facts, e):
        if e.k == "agg" and e.a[0] == "tup" and len(e.a[3]) == 2: return self.pair(s, *e.a[3]) or self.same(facts, *e.a[3]) or e.a[3] in self.checked
        return e.k == "elem" and stored(e.a[0])

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        n = path.rsplit("::", 1)[-1]
        w = f"{fn.path} ({fn.file}:{line})"
        if len(ta) >= 2 and (ta[0], ta[1]) in self.types and ("Map" in path or "map::" in path):
            a = [s.strip_mref(fn, st.env, x) for x in args]
            if n == "insert":
                k, v = (a[1], a[2]) if len(a) == 3 else (s.strip_mref(fn, st.env, a[0]), a[1])
                if len(a) == 2: k = a[0].a[1][1] if a[0].k == "call" and a[0].a[0] == "entry" else a[0].a[1][1] if a[0].k == "call" else k
                self.say(self.pair(s, k, v) or self.same(st.facts, k, v), fn, "insert", f"{w}: a value is stored under {show(k, 5)[:160]}, which is not the hash of {show(v, 5)[:160]}", f"{show(k, 4)[:80]}")
            elif n in ("or_insert", "or_insert_with", "or_insert_with_key", "insert_entry", "or_default"):
                e = a[0]
                k = next((x.a[1][1] for x in subs(e) if x.k == "call" and x.a[0].rsplit("::", 1)[-1] == "entry" and len(x.a[1]) == 2), None)
                if n == "or_default" or k is None: vs = None
                elif n in ("or_insert", "insert_entry"): vs = [a[1]]
                else: vs = [s.strip_mref(fn, s2.env, v) for v, s2 in s.call_closure(fn, sim.State(dict(st.env), st.facts), args[1], [k] if n.endswith("key") else [])]
                self.say(vs and all(self.pair(s, k, v) or self.same(st.facts, k, v) for v in vs), fn, "insert", f"{w}: a value is stored under {show(k, 5)[:160] if k else '?'}, which is not the hash of {[show(v, 5)[:120] for v in vs or []]}", f"{show(k, 4)[:80] if k else ''}")
            elif n in ("extend", "append"):
                es = [s.strip_mref(fn, s2.env, e) for e, s2 in s.elems(fn, sim.State(dict(st.env), st.facts), a[1])]
                self.say(all(self.item(s, st.facts, e) for e in es) or stored(a[1]), fn, "insert", f"{w}: entries are added without their keys being the hash of their value: {[show(e, 5)[:160] for e in es]}", "extend")
            elif n in INPLACE:
                self.say(False, fn, "in-place", f"{w}: {n} can change a stored value in place")
            elif n in LESS | READ | {"new", "with_capacity", "default", "entry"}: self.rep.ok("uses", f"{n} in {fn.path}")
            else: self.say(False, fn, "uses", f"{w}: what {path} does to a content-addressed store is not known")
        elif path.startswith("core::iter::traits::collect::Extend") and n == "extend" and ta and store_type(ta[0]) in self.types:
            a = [s.strip_mref(fn, st.env, x) for x in args]
            es = [s.strip_mref(fn, s2.env, e) for e, s2 in s.elems(fn, sim.State(dict(st.env), st.facts), a[1])]
            self.say(stored(a[1]) or es and all(self.item(s, st.facts, e) for e in es), fn, "insert", f"{w}: entries are added without their keys being the hash of their value: {[show(e, 5)[:160] for e in es]}", "extend")
        return None

    def say(self, good, fn, rule, msg, detail=None):
        self.n += 1
        self.rep.need(good, f"{rule}:{base_name(fn.path)}", msg, detail)


def base_name(p): return re.sub(r"(::\{closure#\d+\})+$", "", p)


def parts(v):
    if v.k == "agg" and v.a[0] == "tup": return [y for x in v.a[3] for y in parts(x)]
    return [v]


def stored(x):
    """x is a content-addressed store (a parameter or part of one)"""
    while x.k == "call" and x.a[1] and x.a[0].rsplit("::", 1)[-1] in ("iter", "into_iter", "clone", "map", "drain"):
        if x.a[0].endswith("::map"): return False
        x = x.a[1][0]
    t = None
    if x.k == "param": t = x.a[-1]
    elif x.k == "fld": return len(x.a) > 2 and (x.a[1], x.a[2]) in FIELDS
    if t is None: return False
    t = re.sub(r"^&(mut )?", "", t)
    return store_type(t) is not None or any(t.startswith(a + "<") for a, f in FIELDS)


FIELDS = set()


def built(c, s, facts, v):
    """v, the content of a store, only has entries under their own hash"""
    if v.k == "upd" and v.a[1][1] in {f for a, f in FIELDS}: return built(c, s, facts, v.a[2])
    if v.k == "agg" and v.a[0] == "adt" and v.a[1] in {a for a, f in FIELDS}: return all(built(c, s, facts, x) for x in v.a[3] if True)
    if v.k == "coll": return (v.a[0] is None or built(c, s, facts, v.a[0])) and all(c.item(s, facts, e) for e in v.a[1])
    if v.k == "phi": return all(built(c, s, facts, x) for x in v.a[0])
    if v.k == "call" and v.a[0].rsplit("::", 1)[-1] in ("new", "default", "with_capacity") and not v.a[1]: return True
    if v.k == "mut": return built(c, s, facts, v.a[1])
    return stored(v)


def run(rep, P, tier):
    """Content-addressed stores are found by type: struct fields that map Digest<X> to X. Every function that can change such a field
    (mutable borrow, assignment, construction; from the MIR of all crates) is evaluated, and at every insertion the key is the hash of
    the very value inserted, or both come from one entry of another such store; every constructed store is empty or filled so;
    derived deserialisation of such a field is refused; nothing gives mutable access to a stored value; lookups use the key they are
    given; the hash is the hash of the whole serialised value."""
    FIELDS.clear()
    kinds = {}
    for a in P.adts.values():
        for vn, fs in a["variants"]:
            for f in fs:
                t = store_type(f[1])
                if t:
                    FIELDS.add((a["path"], f[0]))
                    kinds[a["path"], f[0]] = t
    rep.floor("stores", len(FIELDS), 3, "content-addressed store fields")
    rep.analysed["stores"] = sorted(f"{a}.{f}" for a, f in FIELDS)
    types = set(kinds.values())
    for adt, field in sorted(FIELDS):
        short = adt.rsplit("::", 1)[-1] + "@" + adt.split("::")[0]
        a = P.adts[adt]
        fns = {}
        for p, _, f, line, how in effects.field_writes(P, adt, {field}): fns.setdefault(p, set()).add(how)
        for f in P.fns.values():
            for blk in f.blocks:
                for x in blk[0]:
                    if x[0] == "a" and x[2][0] == "agg" and x[2][1] == "adt" and f.strs[x[2][2]] == adt: fns.setdefault(f.path, set()).add("construct")
        roots = {}
        for p in fns:
            b = base_name(p)
            roots.setdefault(b if b in P.fns else p, set()).update(fns[p])
        rep.floor(f"writers:{short}", len(roots), 2, f"functions that can change {adt}.{field}")
        rep.analysed[f"writers of {short}.{field}"] = sorted(roots)
        for p in sorted(roots):
            c = M(P, rep, types)
            s = sim.Sim(P, c)
            for ret, facts, outs in s.entry_mut(p):
                fn = P.fns[p]
                for i, v in enumerate(outs):
                    if v is None or not fn.locals[i + 1].startswith("&mut"): continue
                    t = re.sub(r"^&mut ", "", fn.locals[i + 1])
                    if not t.startswith(adt + "<") and t != adt: continue
                    x = v if adt in s.newtypes else s.field(v, adt, field)
                    rep.need(built(c, s, facts, x) or mutated(x), f"after:{short}:{base_name(p)}", f"{p} can leave something in the store that is not under its own hash: {show(x, 5)[:200]}", "as before or filled by hash")
                r = ret
                for _ in range(3):
                    if r.k == "agg" and r.a[0] == "adt" and r.a[1] in (sim.RES, sim.OPT, sim.POLL) and r.a[3] and r.a[2] in ("Ok", "Some", "Ready"): r = r.a[3][0]
                rt = fn.locals[0]
                if adt in rt and "construct" in " ".join(roots[p]) and not (r.k == "agg" and r.a[2] in ("Err", "None")):
                    x = r if adt in s.newtypes else s.field(r, adt, field) if not (r.k == "agg" and r.a[1] != adt) else None
                    if x is None: rep.bad(f"made:{short}:{base_name(p)}", f"{p} makes a store in a way that is not understood: {show(r, 5)[:200]}")
                    else: rep.need(built(c, s, facts, x), f"made:{short}:{base_name(p)}", f"{p} makes a store whose keys need not be the hashes of its values: {show(x, 5)[:240]}", show(x, 4)[:100])
            rep.use(s)
    # nobody gets mutable access to a stored value
    for f in P.fns.values():
        for blk in f.blocks:
            t = blk[1]
            if t[0] != "call": continue
            c = P.callee(f, t[1])
            if not c: continue
            n = c[0].rsplit("::", 1)[-1]
            if c[0].startswith(("alloc::rcs::arc::Arc::", "alloc::sync::Arc::")) and n in ("get_mut", "make_mut", "get_mut_unchecked", "as_ptr", "from_raw"):
                rep.bad(f"shared:{base_name(f.path)}", f"{f.path} ({f.file}:{t[5]}): Arc::{n} can change a value that is also held by a store")
        if re.search(r"&(\S+ )?mut (std|alloc)::collections", f.locals[0]) and any(store_type(x) in types for x in re.findall(r"(?:std|alloc)::collections::\S.*", f.locals[0])):
            rep.bad(f"shared:{base_name(f.path)}", f"{f.path} hands out a mutable reference to the inside of a store")
    rep.ok("shared", "no Arc::get_mut / make_mut / &mut map returned in any crate")
    public(rep, P)
    lookups(rep, P)
    digest(rep, P)
    rep.expect("made:CaMap@beekem:beekem::content_addressed_map::CaMap::new", "made:CaMap@keyhive_core:keyhive_core::util::content_addressed_map::CaMap::new")


def mutated(x):
    return x.k == "param"


def public(rep, P):
    """no other crate can reach the map inside a store"""
    for adt, field in sorted(FIELDS):
        vis = next((f[2] if len(f) > 2 else None for vn, fs in P.adts[adt]["variants"] for f in fs if f[0] == field), None)
        if vis is not None: rep.need(vis != "Public", f"private:{adt}", f"{adt}.{field} is public: any crate can store a value under a foreign hash", str(vis))


LOOK = [(KC + "util::content_addressed_map::CaMap", ("get", "remove_by_hash", "contains_key")), ("beekem::content_addressed_map::CaMap", ("get", "remove_by_hash", "contains_key")),
        (KC + "store::delegation::DelegationStore", ("get", "remove_by_hash", "contains_key")), (KC + "store::revocation::RevocationStore", ("get", "remove_by_hash", "contains_key"))]


def lookups(rep, P):
    """a lookup by hash looks under that very hash"""
    for adt, ns in LOOK:
        for n in ns:
            p = f"{adt}::{n}"
            if not rep.fn(p): continue
            c = KCtx(P)
            c.inline_stop = tuple(x for x in c.inline_stop if "CaMap" not in x and "Store" not in x)
            s = sim.Sim(P, c)
            for r, facts, o in s.entry_mut(p):
                calls = [x for x in subs(r) if x.k == "call" and x.a[0].rsplit("::", 1)[-1] in ("get", "remove", "contains_key", "remove_entry", "get_key_value")]
                ok = len(calls) == 1 and calls[0].a[1][-1].k == "param" and calls[0].a[1][-1].a[1] == 1 or r is sim.NONE or r.k == "agg" and r.a[2] == "None"
                rep.need(ok, f"lookup:{p[len('keyhive_core::') if p.startswith('keyhive_core::') else 0:]}", f"{p} does not look up the hash it is given: {show(r, 6)[:200]}", show(r, 5)[:120])
            rep.use(s)


def digest(rep, P):
    """the hash covers the whole serialised value"""
    if not rep.fn(HASH): return
    s = sim.Sim(P, KCtx(P))
    for r, facts, o in s.entry_mut(HASH):
        b = [x for x in subs(r) if x.k == "call" and x.a[0].endswith("blake3::hash")]
        z = [x for x in subs(r) if x.k == "call" and x.a[0].endswith("serialize")]
        ok = len(b) == 1 and len(z) == 1 and z[0].a[1][0].k == "param" and z[0] in set(subs(b[0])) and bare(b[0].a[1][0], z[0])
        rep.need(ok, "hash", f"{HASH} is not the hash of the whole serialised value: {show(r, 8)[:300]}", show(r, 6)[:160])
    rep.use(s)


def bare(x, z):
    """x is z's success value, whole"""
    while x is not z:
        if x.k == "fld" and x.a[2] == "0": x = x.a[0]
        elif x.k == "call" and x.a[0].rsplit("::", 1)[-1] in ("as_slice", "expect", "unwrap", "deref", "as_ref"): x = x.a[1][0]
        else: return False
    return True
