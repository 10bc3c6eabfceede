"""C16: known principals are never dropped from the registry."""
import re
import sim
from sim import mk, subs, show
from kctx import *
import effects

TYPES = {"IndividualId": "individual", "GroupId": "group", "DocumentId": "document"}
KEY = re.compile(r"principal::(individual::id::IndividualId|group::id::GroupId|document::id::DocumentId)$")
VAL = re.compile(r"Arc<futures_util::lock::mutex::Mutex<keyhive_core::principal::(individual::Individual|group::Group|document::Document)\b")
WHOLE = re.compile(r"HashMap<keyhive_core::principal::(individual::id::IndividualId|group::id::GroupId|document::id::DocumentId), [^<]*Arc<futures_util::lock::mutex::Mutex<keyhive_core::principal::(individual::Individual|group::Group|document::Document)\b")
SHRINK = {"remove", "remove_entry", "retain", "drain", "clear", "extract_if", "take", "replace", "swap", "into_iter", "into_keys", "into_values", "pop_first", "pop_last"}
GROW = {"insert", "extend", "insert_entry", "insert_unique_unchecked"}
LOOK = {"get", "contains_key", "get_mut", "get_key_value", "entry"}
REG = ("individuals", "groups", "docs")


OBJECT = re.compile(r"^&(mut )?keyhive_core::(principal::(group::Group|group::state::GroupState|document::Document|active::Active|membered::Membered|agent::Agent|peer::Peer)|cgka::Cgka)\b")


def base(p): return re.sub(r"(::\{closure#\d+\})+$", "", p)


def registry_kind(ta):
    """which registry type a callee works on"""
    if len(ta) >= 2 and KEY.search(ta[0]) and VAL.search(ta[1]): return TYPES[ta[0].rsplit("::", 1)[-1]]
    for t in ta:
        m = WHOLE.search(t)
        if m: return TYPES[m.group(1).rsplit("::", 1)[-1]]
    return None


WRAP = ("from", "into", "clone", "dupe", "to_owned", "deref", "borrow", "as_ref", "id", "verifying_key", "identifier", "from_verifying_key")


def leaf(t):
    """the identifier inside an id, whatever its newtype"""
    while True:
        if t.k == "agg" and t.a[0] == "adt" and len(t.a[3]) == 1: t = t.a[3][0]
        elif t.k == "call" and len(t.a[1]) == 1 and t.a[0].rsplit("::", 1)[-1] in WRAP: t = t.a[1][0]
        elif t.k == "fld" and t.a[2] == "0" and t.a[1].endswith(("Id", "Identifier")): t = t.a[0]
        else: return t


def owner(t):
    """the registry a map term is: 'own' field of the instance, 'gone' part of something handed over by value, or None for a map built here"""
    b, f = t, []
    while b.k == "fld" or b.k == "call" and len(b.a[1]) == 1 and b.a[0].rsplit("::", 1)[-1] in WRAP + ("lock", "deref_mut", "as_mut"):
        if b.k == "fld": f.append(b.a[2])
        b = b.a[0] if b.k == "fld" else b.a[1][0]
    if b.k in ("coll", "agg", "upd", "phi"): return None, f
    if b.k == "call" and not b.a[1] and b.a[0].rsplit("::", 1)[-1] in ("new", "default"): return None, f
    return b, f


class Reg(KCtx):
    """follows the registries of principals"""
    def __init__(self, P, rep, sites, me, near, close=(), size={}):
        super().__init__(P)
        self.rep, self.sites, self.me, self.near = rep, sites, me, near
        self.inline_stop = self.inline_stop + (r"^beekem::", r"Group::rebuild$", r"GroupState::(add_|rebuild)", r"(Delegation|Revocation)Store::(insert|contains\w*)$", r"::proof_lineage$", r"::on_(delegation|revocation|cgka_op|prekey\w+)$", r"::pick_\w*prekeys?$", r"::transitive_members$")
        self.far, self.close, self.size = near, close, size
        self.replaces = False      # it exchanges an individual for a group or document: whoever calls it has looked that up
        self.events = {}      # (site, function) -> list of problems
        self.seen = {}

    def opaque(self, p):
        b = base(p)
        if b in self.far: return True
        f = self.P.fns.get(b)      # what changes a principal, not who is known
        return bool(f and b != self.me and b not in self.close and b.startswith((KC, "<" + KC)) and f.argc and len(f.locals) > 1
                    and re.match(r"&('\S+ )?mut |&", f.locals[1]) and OBJECT.search(f.locals[1]) and self.size.get(b, 0) > 8)

    def keep(self, p):
        if p.k in ("dropped", "added"): return True
        if p.k == "is": return any(x.k == "call" and x.a[0].rsplit("::", 1)[-1] in LOOK for x in [p.a[0]])
        if p.k == "call": return p.a[0].rsplit("::", 1)[-1] in ("contains_key", "contains") and len(p.a[1]) > 1
        return False

    def absent(self, st, reg, k):
        """the path has looked for k in this registry and not found it"""
        for q, v in st.facts:
            c = q.a[0] if q.k == "is" else q
            if c.k != "call" or len(c.a[1]) < 2 or c.a[0].rsplit("::", 1)[-1] not in ("get", "contains_key", "get_mut", "get_key_value"): continue
            if leaf(c.a[1][1]) is not leaf(k) or owner(c.a[1][0])[1] != owner(reg)[1]: continue
            if q.k == "call" and not v: return True
            if q.k == "is" and (q.a[1] == "None") == v: return True
        return False

    def fresh(self, k):
        """a newly generated identity"""
        return any(x.k == "call" and re.search(r"SigningKey::(generate|random)$|::generate(_with_content)?$", x.a[0]) for x in subs(k))

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        m = path.rsplit("::", 1)[-1]
        if m not in SHRINK and m not in GROW or "VacantEntry" in path: return None
        kind = registry_kind(ta)
        if not kind: return None
        if path.startswith("core::iter") and m != "extend": return None
        a = [s.strip_mref(fn, st.env, x) for x in args]
        if not a: return None
        site = f"{base(fn.path)}:{m}:{kind}"
        w = f"{fn.path} ({fn.file}:{line})"
        o, f = owner(a[0])
        self.seen[site] = self.seen.get(site, 0) + 1
        bad = self.events.setdefault(site, [])
        if o is None: return None
        if o.k == "param" and f and not re.match(r"&|alloc::(rcs|sync)::", o.a[3]) and o.a[1] != 0:
            return None          # part of an instance handed over by value: it ends here
        if m in ("insert", "insert_entry") and len(a) == 3:
            if not (self.absent(st, a[0], a[1]) or self.fresh(a[1])):
                bad.append(f"{w}: the {kind} {show(leaf(a[1]), 4)[:120]} may already be known, and would be replaced")
            return [(mk("call", path, tuple(a)), st.facts | {(mk("added", kind, leaf(a[1])), True)})]
        if m in ("remove", "remove_entry") and len(a) == 2:
            self.replaces = True
            if kind != "individual" or not any(q.k == "added" and v and q.a[0] in ("group", "document") and q.a[1] is leaf(a[1]) for q, v in st.facts):
                bad.append(f"{w}: the {kind} {show(leaf(a[1]), 4)[:120]} is removed although it is not known as a group or document yet")
            return None
        if m == "extend":
            bad.append(f"{w}: known principals may be replaced by extend")
            return None
        bad.append(f"{w}: principals are removed by {m}")
        return None


def public(fn): return fn.vis == "pub" or str(fn.vis) == "Public"


def registry_sites(P):
    """the calls that can shrink or overwrite a registry"""
    out = {}
    for p, f in P.fns.items():
        for blk in f.blocks:
            t = blk[1]
            if t[0] != "call": continue
            c = P.callee(f, t[1])
            if not c: continue
            m = c[0].rsplit("::", 1)[-1]
            if m not in SHRINK and m not in GROW or "VacantEntry" in c[0] or c[0].startswith("core::iter") and m != "extend": continue
            k = registry_kind(c[3])
            if k: out.setdefault(base(p), []).append(f"{base(p)}:{m}:{k}")
    return out


def run(rep, P, tier):
    """Every call that can remove or overwrite an entry of a map from principal ids to principals is found by the types involved. Each is
    followed on all paths of its function, and where that does not settle it on all paths of its callers: an entry is inserted only for an
    identifier that was looked up in that registry and not found (or that was just generated); an individual is removed only after
    a group or document with the same identifier has been inserted, so that there is no moment at which the identifier is unknown; nothing
    else is removed (maps under construction, and those of a fork that is consumed, aside). The registries themselves are never replaced."""
    G = CallGraph(P)
    inn = {}
    for a, bs in G.out.items():
        for b in bs: inn.setdefault(base(b), set()).add(base(a))
    sites = registry_sites(P)
    rep.analysed["sites"] = sorted(x for v in sites.values() for x in v)
    rep.floor("sites", sum(len(set(v)) for v in sites.values()), 12, "calls that can shrink or overwrite a registry")
    # the three registries exist and are replaced only by constructors
    if KH not in P.adts: rep.bad(f"anchor:{KH}", f"{KH} is missing")
    reg = {f[0] for vn, fs in P.adts.get(KH, {"variants": []})["variants"] for f in fs if WHOLE.search(f[1])}
    rep.floor("registries", len(reg), 3, "registries of an instance")
    for p, _, n, line, how in effects.field_writes(P, KH, reg):
        if "construct" not in how: rep.bad(f"replaced:{base(p)}:{n}", f"{p}:{line}: the registry {n} is written ({how})")
    rep.ok("replaced", f"{sorted(reg)} are only set by constructors")
    memo = {}

    reaching, todo = set(), list(sites)      # functions from which a site can be reached
    while todo:
        x = todo.pop()
        if x in reaching: continue
        reaching.add(x)
        todo += inn.get(x, ())

    inner = {x for x in reaching if x in P.fns and not public(P.fns[x])}      # helpers: always followed
    size = {}
    for x, fn in P.fns.items(): size[base(x)] = size.get(base(x), 0) + weight(fn)

    def judge(f, chain):
        """f on all paths; of the functions that reach a site only those of the chain are followed (the others are judged on their own)"""
        key = (f, tuple(chain))
        if key not in memo:
            c = Reg(P, rep, sites, f, reaching - {f} - set(chain) - inner, reaching, size)
            s = sim.Sim(P, c)
            list(s.entry_mut(f))
            rep.use(s)
            memo[key] = c
        return memo[key]

    def settle(site, f, depth, chain):
        """None if the site is fine when reached through f, or the reason why not"""
        c = judge(f, chain)
        if site not in c.seen: return f"{f} was not seen to reach it"
        if not c.events[site]: return None
        ups = sorted(inn.get(f, set()) - {f} - set(chain))
        if f in P.fns and public(P.fns[f]) and not c.replaces: return c.events[site][0]     # anyone can call it
        if depth == 0 or not ups: return c.events[site][0]
        for u in ups:
            r = settle(site, u, depth - 1, chain + [f])
            if r: return r
        return None
    for f in sorted(sites):
        if f not in P.fns:
            rep.bad(f"site:{f}", f"{f} cannot be evaluated on its own")
            continue
        for site in sorted(set(sites[f])):
            r = settle(site, f, 3, [])
            rep.need(r is None, f"site:{site.replace(KC, '')}", r, "settled")
    # entries are not swapped for other principals through a reference
    n = 0
    for p, fn in P.fns.items():
        for blk in fn.blocks:
            for st in blk[0]:
                if st[0] == "a" and len(st[1]) >= 2 and st[1][-1][0] == "d":
                    t = fn.locals[st[1][0]]
                    if len(st[1]) == 2 and t.startswith("&mut ") and VAL.search(t) and re.match(r"&mut alloc::(rcs|sync)::arc::Arc<", t):
                        rep.bad(f"swapped:{base(p)}", f"{p} ({fn.file}:{st[3]}): a known principal is replaced through a reference")
                n += 1
    rep.ok("swapped", f"{n} assignments")
