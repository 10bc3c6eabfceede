"""C01: received operations are signature-checked before they have any effect."""
import re
import sim
from sim import mk, subs, show
from kctx import *
from chain import issuer_of, eqs
import inserters

WIRE = re.compile(r"Signed<[\w:]*(StaticDelegation|StaticRevocation|CgkaOperation|AddKeyOp|RotateKeyOp)|::KeyOp\b|ContactCard|StaticEvent|StaticMembershipOperation")
KEYOP = KC + "principal::individual::op::KeyOp"
PKS = KC + "principal::individual::state::PrekeyState"
EXEMPT = {KH + "::try_from_archive": "the archive is the instance's own", KH + "::ingest_archive": "the archive is the instance's own"}
CAMUT = re.compile(r"content_addressed_map::CaMap::(insert|remove|merge|extend|clear)|store::\w+::\w+Store::insert")
LISTEN = re.compile(r"Listener>?::on_\w+$")
VERIFY = re.compile(r"(Signed|KeyOp)::try_verify$|PrekeyState::insert_op$|Individual::receive_prekey_op$")
CHECKED = (IND + "::receive_prekey_op", PKS + "::insert_op")   # these succeed only for an operation that was checked


def guard_mut(c):
    """exclusive access to what a lock protects; the guarded type"""
    if c and c[0] == "core::ops::deref::DerefMut::deref_mut" and c[3] and "MutexGuard" in c[3][0]: return c[3][0]
    return None


def effectful(P, g):
    """functions that can reach a change of shared state or an announcement"""
    base = set()
    for f in P.fns.values():
        for blk in f.blocks:
            t = blk[1]
            if t[0] != "call": continue
            c = P.callee(f, t[1])
            if guard_mut(c) or (c and LISTEN.search(c[0])): base.add(f.path)
    seen, todo = set(base), list(base)
    while todo:
        x = todo.pop()
        for y in g.inn.get(x, ()):
            if y not in seen: seen.add(y); todo.append(y)
    return seen


def is_ok(facts, name):
    """the arguments of the calls of `name` known to have returned Ok"""
    r = []
    for p, t in facts:
        if p.k == "is" and p.a[0].k == "call" and name.search(p.a[0].a[0]) and (p.a[1] == "Ok") == bool(t) and p.a[1] in ("Ok", "Err"):
            r.append(p.a[0].a[1][0])
    return r


class C(KCtx):
    tokens = True

    def __init__(self, P, eff, entries, me):
        super().__init__(P)
        self.eff, self.entries, self.me = eff, entries, me
        self.early = False
        self.sites = []       # (what, verified terms, where)
        self.inline_stop = STOP + (r"::try_verify$",)

    def keep(self, p):
        return p.k == "is" and p.a[0].k == "call" and bool(VERIFY.search(p.a[0].a[0])) or (p.k == "eq" and any("issuer" in fields(x) or has_call(x, "ident", "verifying_key") for x in p.a))

    def effect(self, st, fn, line, what):
        if not is_ok(st.facts, VERIFY): self.early = True   # a violation already: no need to look deeper
        self.sites.append((what, st.facts, f"{fn.path} ({fn.file}:{line})", f"{inserters.base(fn.path)}:{what}"))

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        g = guard_mut((path, res, None, ta))
        if g:
            if not ("StaticEvent" in g): self.effect(st, fn, line, "lock")
            return None
        if LISTEN.search(path): self.effect(st, fn, line, path.rsplit("::", 1)[-1]); return None
        if CAMUT.search(res):
            if args and rooted(s.strip_mref(fn, st.env, args[0])): self.effect(st, fn, line, "store")
            return None
        if res in self.entries and res != self.me:
            self.sites.append(("entry", st.facts, fn.path, res))
            return [(mk("call", res, tuple(args)), st.facts)]
        if res.startswith("beekem::") or res.startswith("<beekem"): return [(mk("call", res, tuple(s.strip_mref(fn, st.env, a) for a in args)), st.facts)]
        if res in self.eff and res in self.P.fns:
            if is_ok(st.facts, VERIFY) or self.early:
                self.effect(st, fn, line, res.rsplit("::", 1)[-1])
                return [(mk("call", res, tuple(s.strip_mref(fn, st.env, a) for a in args)), st.facts)]
        return None

    def on_token(self, s, st, fn, what, tok, item, line):
        if tok.k != "token" and rooted(tok): self.effect(st, fn, line, what)

    def on_write(self, s, st, fn, line, base, key, val):
        if rooted(base): self.effect(st, fn, line, "assign")


def rooted(t):
    """part of state that outlives the call"""
    b, f = fpath(t)
    return b.k == "param" and b.a[3].startswith("&mut")


def run(rep, P, tier):
    """Dataflow over every public function that takes an operation from outside: on every path, exclusive access to shared state
    (a lock guard dereferenced mutably, a change through &mut self) and listener calls are only reached after the signature check of the
    operation succeeded. What the check covers is decided on Signed::try_verify itself, and the operation that is applied is
    shown to be built field by field from the one that was checked."""
    g = CallGraph(P)
    eff = effectful(P, g)
    entries = {}
    for f in P.fns.values():
        if "{" in f.path or f.derived or f.vis != "Public": continue
        if not (f.path.startswith(KH + "::") or f.path in (IND + "::receive_prekey_op", PKS + "::insert_op", PKS + "::extend")): continue
        ar = [t for t in f.locals[1:f.argc + 1] if WIRE.search(t) and not t.startswith("&" + KH)]
        if ar or f.path == PKS + "::extend": entries[f.path] = f
    for need in ("receive_prekey_op", "receive_contact_card", "receive_delegation", "receive_revocation", "receive_cgka_op", "receive_static_event"):
        rep.fn(KH + "::" + need)
    rep.fn(IND + "::receive_prekey_op"); rep.fn(PKS + "::insert_op")
    for e in sorted(entries):
        if e in EXEMPT: rep.ok("exempt:" + e, EXEMPT[e]); continue
        c = C(P, eff, set(entries), e)
        s = sim.Sim(P, c)
        outs = s.entry(e)
        rep.use(s)
        n = 0
        short = e.split("::")[-2] + "::" + e.rsplit("::", 1)[-1]
        for what, facts, where, key in c.sites:
            n += 1
            if what == "entry": rep.ok(f"before:{short}:delegates", key); continue
            rep.need(bool(is_ok(facts, VERIFY)), f"before:{short}:{key}", f"{where}: reached from {short} ({what}) on a path where the signature of the received operation has not been checked", where)
        if e == IND + "::receive_prekey_op":
            for what, facts, where, key in c.sites:
                own = any(any(issuer_of(x) is not None or has_call(x, "ident", "verifying_key") for x in ab) and any(fields(x)[-1:] == ("id",) and fpath(x)[0].k == "param" and fpath(x)[0].a[2] == "self" or
                          (has_call(x, "verifying_key") and any(fields(y)[-1:] == ("id",) for y in subs(x))) for x in ab) for ab in eqs(facts))
                rep.need(own, "issuer:individual", f"{where}: an individual takes over a prekey operation without it being known that the individual issued it", where)
        if e in CHECKED:
            for ret, facts, _ in outs:
                if ret.k == "agg" and ret.a[2] == "Err": continue
                rep.need(bool(is_ok(facts, VERIFY)), f"ok:{short}", f"{short} can succeed although the signature of the operation was not checked", e)
        rep.floor(f"effects:{short}", n, 0 if e.endswith("static_event_to_event") else 1, "effects of a receiving function")

    covers(rep, P)
    rebuilt(rep, P)
    g = CallGraph(P)
    for k, sink in (("delegation (group)", GR + "::receive_delegation"), ("delegation (document)", DOC + "::receive_delegation"), ("revocation (group)", GR + "::receive_revocation"),
                    ("revocation (document)", DOC + "::receive_revocation"), ("key-tree operation", DOC + "::merge_cgka_op"), ("invitation", DOC + "::merge_cgka_invite_op")):
        if rep.fn(sink): applied(rep, P, g, k, sink)


# functions that apply operations this instance signed itself
LOCAL = {GR + "::add_member_with_manual_content": "signs the delegation", GR + "::add_member": "signs the delegation", DOC + "::add_member": "signs the delegation",
         GR + "::revoke_member": "signs the revocation", DOC + "::revoke_member": "signs the revocation", GR + "::generate_after_content": "signs the delegations",
         GR + "::generate": "signs the delegations", DOC + "::generate": "signs the delegations"}


def applied(rep, P, g, kind, sink):
    """An operation is only applied by the receiving functions, or where this instance signs it."""
    aud = {KH + "::receive_delegation", KH + "::receive_revocation", KH + "::receive_cgka_op"} | set(LOCAL)
    ap = {p for p in g.out if inserters.base(p) in aud}
    roots = [f.path for f in P.fns.values() if f.path not in ap and not g.inn.get(f.path) and inserters.base(f.path) != sink
             and not f.path.startswith((GR + "::receive_", DOC + "::receive_", DOC + "::merge_", KC + "principal::membered::Membered::"))]
    seen = g.reach(roots, without=ap)
    callers = sorted(inserters.base(f) for f, o in g.out.items() if sink in o and inserters.base(f) != sink)
    rep.floor(f"appliers:{kind}", len(callers), 1, "functions applying it")
    for f, o in sorted(g.out.items()):
        if sink in o and inserters.base(f) != sink:
            rep.need(f not in seen or f in ap, f"applied:{kind}:{inserters.base(f)}", f"{f} applies a received {kind} and can be reached without passing through the functions that check signatures", f)


def unser(t):
    """X for the bytes serialize(X.payload)"""
    if t.k == "fld" and t.a[3] == "Ok": t = t.a[0]
    if t.k == "call" and t.a[0].rsplit("::", 1)[-1].startswith("serialize") and t.a[1]:
        return fld(t.a[1][0], "payload")
    return None


def fld(t, *names):
    for n in reversed(names):
        if t.k != "fld" or t.a[2] != n: return None
        t = t.a[0]
    return t


class V(KCtx):
    def keep(self, p): return p.k == "is"


def covers(rep, P):
    """What a successful signature check says."""
    for e in (SIGNED + "::try_verify", KEYOP + "::try_verify"):
        if not rep.fn(e): continue
        s = sim.Sim(P, V(P))
        n = 0
        for ret, facts, _ in s.entry(e):
            if ret.k == "agg" and ret.a[2] == "Err": continue
            n += 1
            good = False
            for p, t in facts:
                if p.k == "is" and (p.a[1] == "Ok") == bool(t) and p.a[1] in ("Ok", "Err") and p.a[0].k == "call" and p.a[0].a[0].rsplit("::", 1)[-1] in ("verify", "verify_strict"):
                    a = p.a[0].a[1]
                    if len(a) == 3 and fld(a[0], "issuer") is not None and unser(a[1]) is fld(a[0], "issuer") and fld(a[2], "signature") is fld(a[0], "issuer"):
                        b, f = fpath(fld(a[0], "issuer"))
                        if b.k == "param": good = True
            rep.need(good, f"covers:{e.split('::')[-2]}", f"{e} can succeed without the signature over the serialized payload having been checked under the issuer's key", e)
        rep.floor(f"covers:{e.split('::')[-2]}:returns", n, 1, "ways to succeed")
        rep.use(s)
    # every field of a signed payload is serialized
    for a in ("keyhive_core::principal::group::delegation::StaticDelegation", "keyhive_core::principal::group::revocation::StaticRevocation",
              "keyhive_core::principal::individual::op::add_key::AddKeyOp", "keyhive_core::principal::individual::op::rotate_key::RotateKeyOp", "beekem::operation::CgkaOperation"):
        adt = P.adts.get(a)
        if not rep.need(adt is not None, "anchor:" + a, f"{a} not found", a): continue
        fs = [f for f in P.fns.values() if re.match(r"<" + re.escape(a) + r"(<.*>)? as serde(_core|::ser)?::(ser::)?Serialize>::serialize$", f.path)]
        if not rep.need(len(fs) == 1, "anchor:serialize:" + a, f"the serialization of {a} was not found"): continue
        got = set()
        for blk in fs[0].blocks:
            for st in blk[0]:
                if st[0] == "a":
                    for pl in places(st[2]):
                        for e in pl[1:]:
                            if e[0] == "f": got.add(e[2])
        for v in adt["variants"]:
            for n, ty, _ in v[1]:
                if "PhantomData" in ty: continue
                rep.need(n in got, f"payload:{a.split('::')[-1]}:{n}", f"field {n} of {a} is left out of its serialization: the signature does not cover it", n)


def places(rv):
    k = rv[0]
    if k == "ref" or k == "disc": yield rv[2] if k == "ref" else rv[1]
    for o in rv[1:]:
        if isinstance(o, (list, tuple)) and o and o[0] in ("c", "m"): yield o[1]


class R(KCtx):
    """Operations rebuilt from a received one."""
    def __init__(self, P):
        super().__init__(P)
        self.made = []
        self.inline_stop = STOP + (r"Keyhive::get_agent$", r"::try_verify$", r"Group::new$", r"Group::receive_", r"Document::(from_group|receive_)", r"promote_individual", r"Individual::new$")

    def keep(self, p): return p.k == "is" and fields(p.a[0])[-2:] == ("payload", "proof")

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        if res.endswith("signed::Signed::new") and len(args) == 3:
            v = [s.strip_mref(fn, st.env, a) for a in args]
            self.made.append((v, st.facts, f"{fn.path} ({fn.file}:{line})"))
        return None


def rebuilt(rep, P):
    """The operation that is applied consists of the fields of the one that was checked."""
    for e, adt, want in ((KH + "::receive_delegation", DLG, ("delegate", "proof", "can", "after_revocations", "after_content")),
                         (KH + "::receive_revocation", REV, ("revoke", "proof", "after_content"))):
        if not rep.fn(e): continue
        c = R(P)
        s = sim.Sim(P, c)
        s.entry(e)
        rep.use(s)
        a = P.adts.get(adt)
        order = [f[0] for f in a["variants"][0][1]] if a else []
        n = 0
        seen = {}
        for (pay, iss, sig), facts, w in c.made:
            X = fld(sig, "signature")
            if X is None: continue
            n += 1
            k = adt.split("::")[-1]
            rep.need(fld(iss, "issuer") is X, f"rebuilt:{k}:issuer", f"{w}: the applied operation names another issuer than the one that was checked", w)
            if not rep.need(pay.k == "agg" and len(pay.a[3]) == len(order), f"rebuilt:{k}:shape", f"{w}: cannot see how the applied operation is built", w): continue
            for name, v in zip(order, pay.a[3]):
                src = any(x.k == "fld" and x.a[2] == name and fld(x.a[0], "payload") is X for x in subs(v))
                other = [x.a[2] for x in subs(v) if x.k == "fld" and fld(x.a[0], "payload") is X and x.a[2] != name]
                if name == "can": src = fld(v, "payload", "can") is X
                if not src and name == "proof":
                    src = v.k == "agg" and v.a[2] == "None" and any(fld(p.a[0], "payload", "proof") is X and (p.a[1] == "None") == bool(t) for p, t in facts)
                if name == "after_revocations" and not src: seen.setdefault((k, name), False); continue
                if src: seen[(k, name)] = True
                rep.need(src and not other, f"rebuilt:{k}:{name}", f"{w}: {name} of the applied operation is not taken from the operation that was checked ({show(v, 5)[:150]})", w)
        for (k, name), v in seen.items():
            rep.need(v, f"rebuilt:{k}:{name}", f"{name} of the applied operation is not taken from the operation that was checked", name)
        rep.floor(f"rebuilt:{adt.split('::')[-1]}", n, 1, "operations rebuilt from a received one")
