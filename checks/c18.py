"""C18: forks are isolated from the original until merged."""
import re
import sim, sharing
from sim import mk, subs, show
from kctx import *

FORK = KC + "transact::fork::"
MERGE = KC + "transact::merge::"
CONTRACTS = ("beekem::transact::Fork::fork", FORK + "Fork::fork", FORK + "ForkAsync::fork_async")
MERGES = ("beekem::transact::Merge::merge", MERGE + "Merge::merge", MERGE + "MergeAsync::merge_async")
ACTIVE = KC + "principal::active::Active"
HARMLESS = {
    "Active.signer": "a signer holds a fixed signing key (trait AsyncSigner): using it through the fork is not a change",
    "Keyhive.csprng": "a shared source of randomness: its outputs carry no state that either side could observe",
}


def short(p):
    m = re.match(r"<(.*?) as (\S+?)>::(\w+)$", p)
    h = m.group(1) if m else p
    crate = "beekem" if p.startswith("<beekem") else ""
    inner = re.search(r"(\w+)<[^<>]*(?:<[^<>]*>[^<>]*)*$", h) if "Rc<" in h or "Arc<" in h else None
    return f"{crate}{'.' if crate else ''}{re.sub(r'<.*', '', h).rsplit('::', 1)[-1]}{':' + inner.group(1) if inner else ''}::{m.group(3) if m else ''}"


def run(rep, P, tier):
    """Every implementation of Fork and ForkAsync (found by trait) is analysed with an interprocedural sharing analysis over the MIR:
    values are labelled with the field of the original they share state with, and a label survives only in values whose type contains
    a shared pointer to (or borrow of) something with interior mutability. The result of a fork may carry no label except those of the
    signer and the random source. Implementations for containers are judged at the concrete types they are used with. The transaction
    functions are evaluated on all paths: the closure receives only the fork, nothing is merged on an error path, and on the success
    path exactly this fork is merged."""
    S = sharing.Sharing(P, [KH, ACTIVE], CONTRACTS)
    n = 0
    for tr in CONTRACTS:
        for im, ip in P.by_trait.get(tr, []):
            if not rep.fn(ip): continue
            n += 1
            ls = S.summary(ip)
            if ls is None:
                rep.bad(f"fork:{short(ip)}", f"{ip} could not be analysed")
                continue
            rep.ok(f"fork:{short(ip)}", f"shares with the original: {sorted(str(f) for _, f in ls) or 'nothing'}")
            for _, f in sorted(ls, key=str):
                if f in HARMLESS:
                    rep.assume.append(f"{f}: {HARMLESS[f]}") if f"{f}: {HARMLESS[f]}" not in rep.assume else None
                    continue
                fn = P.fns[ip]
                rep.bad(f"fork:{short(ip)}:{f or 'self'}", f"{ip} ({fn.file}:{fn.line}): the fork shares mutable state with the original through {f or 'the whole value'}: a change through one is visible through the other")
    rep.floor("forks", n, 15, "implementations of Fork and ForkAsync")
    rep.analysed["functions_in_sharing_analysis"] = len(S.fns)
    # containers: the type parameters of the generic implementations stand for plain data
    inst = 0
    for f in P.fns.values():
        for blk in f.blocks:
            t = blk[1]
            if t[0] != "call": continue
            c = P.callee(f, t[1])
            if not c or c[0] not in CONTRACTS + MERGES or not c[3]: continue
            ty = c[3][0]
            if sharing.PARAM.match(ty): continue
            h, a = sharing.split_generic(ty)
            if h in P.adts and c[0] in CONTRACTS + MERGES and "Active" in h: continue
            inst += 1
            x = ty
            while sharing.split_generic(x)[0] in sharing.PTR or sharing.CELL.search(sharing.split_generic(x)[0]): x = sharing.split_generic(x)[1][0]
            if x.startswith((KH, ACTIVE)): continue
            rep.need(not S.shares(x), f"instance:{re.sub(r'<.*', '', x).rsplit('::', 1)[-1]}", f"{f.path} ({f.file}:{t[5]}): {c[0]} is used with {ty}, whose clones share mutable state", ty)
    rep.floor("instances", inst, 8, "uses of Fork and Merge at concrete types")
    # what the generic implementations clone must be the parameter only
    archive = next((a for a in P.adts if a == KC + "archive::Archive"), None)
    rep.need(archive is not None and not S.holds(archive + "<T>"), "archive:plain", "an archive, from which a fork is rebuilt, can hold shared mutable state", "no field of Archive<T> reaches interior mutability")
    # no mutable globals
    for f in P.fns.values():
        for ty in f.locals:
            m = re.search(r"(?:thread::local::LocalKey|lazy_lock::LazyLock)<(.*)>", ty)
            if m and "tracing" not in ty and ("LocalKey" in ty or S.holds(sharing.split_generic("t<" + m.group(1) + ">")[1][0])):
                rep.bad(f"global:{f.path}", f"{f.path} uses process-global mutable state of type {ty[:100]}")
    rep.ok("global", "no thread-local, and no lazily initialised global with interior mutability")
    once(rep, P)
    for p in ("transact_blocking", "transact_async"): transaction(rep, P, KC + "transact::" + p)


def once(rep, P):
    """write-once cells only cache something computed"""
    seen = 0
    for f in P.fns.values():
        for blk in f.blocks:
            t = blk[1]
            if t[0] != "call": continue
            c = P.callee(f, t[1])
            if not c or not re.search(r"(once_lock::OnceLock|once::OnceCell|OnceCell|OnceLock)::", c[0]): continue
            n = c[0].rsplit("::", 1)[-1]
            seen += 1
            b = re.sub(r"(::\{closure#\d+\})+$", "", f.path)
            made = n == "set" and any(P.callee(f, x[1][1]) and P.callee(f, x[1][1])[0].endswith("::new") and "Once" in P.callee(f, x[1][1])[0] for x in f.blocks if x[1][0] == "call")
            rep.need(n in ("new", "get", "get_or_init", "clone", "default", "into_inner") or made, f"once:{n}:{b}", f"{f.path} ({f.file}:{t[5]}): {c[0]} writes a shared cell", n)
    rep.analysed["once_cells"] = seen
    rep.assume.append("write-once cells (OnceLock) cache a value computed from the content they sit in: C13 decides what they hold")


class Tx(KCtx):
    def __init__(self, P, rep, name):
        super().__init__(P)
        self.rep, self.name = rep, name
        self.n = 0

    def keep(self, p): return True

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        a = [s.strip_mref(fn, st.env, x) for x in args]
        w = f"{fn.path} ({fn.file}:{line})"
        if path in MERGES:
            self.n += 1
            return [(mk("agg", "tup", "", "", ()), st.facts | {(mk("did", (a[0], a[1])), True)})]
        if path in CONTRACTS: return [(mk("call", "fork", (a[0],)), st.facts)]
        n = path.rsplit("::", 1)[-1]
        if any(x.k == "param" and x.a[1] == 0 for x in a) and n not in ("clone", "deref", "borrow", "as_ref", "into_iter", "drop"):
            if not (n in ("call_mut", "call", "call_once", "async_call_mut", "in_scope", "instrument", "poll", "into_future", "new", "new_unchecked", "get_context", "map", "from_residual", "branch") or "tracing" in path):
                self.rep.bad(f"{self.name}:trunk", f"{w}: the original is handed to {path} outside fork and merge")
        return None


def transaction(rep, P, p):
    if not rep.fn(p): return
    name = p.rsplit("::", 1)[-1]
    c = Tx(P, rep, name)
    s = sim.Sim(P, c)
    oks = errs = 0
    for ret, facts, outs in s.entry_mut(p):
        did = [x.a[0] for x, v in facts if v and x.k == "did"]
        if not (ret.k == "agg" and ret.a[1] == sim.RES):
            rep.bad(f"{name}:result", f"{p}: a result that is neither Ok nor Err: {show(ret, 5)[:200]}")
            continue
        calls = {x for q, v in facts for x in subs(q) if x.k == "call" and x.a[0].startswith("callfn")} | {x for x in subs(ret) if x.k == "call" and x.a[0].startswith("callfn")}
        for x in calls:
            given = x.a[1][1:]
            flat = [y for g in given for y in (g.a[3] if g.k == "agg" and g.a[0] == "tup" else [g])]
            rep.need(flat and all(g.k == "call" and g.a[0] in ("fork", "fork.await") for g in flat), f"{name}:given", f"{p}: the transaction is given {[show(g, 4)[:80] for g in flat]}, not a fork", "the transaction gets only a fork")
        if ret.a[2] == "Err":
            errs += 1
            rep.need(not did, f"{name}:err", f"{p}: a failing transaction is merged into the original: {[show(y, 4)[:80] for x in did for y in x]}", "no merge on an error path")
            failed = any(q.k == "is" and q.a[1] == "Err" and v for q, v in facts) or any(x in calls for x in subs(ret))
            rep.need(failed, f"{name}:err-cause", f"{p}: the error does not come from the transaction", show(ret, 4)[:100])
        else:
            oks += 1
            ok = len(did) == 1 and root_param(did[0][0]) and result_of_fork(did[0][1])
            rep.need(ok, f"{name}:ok", f"{p}: on success, not exactly the transaction's fork is merged into the original: {[show(y, 4)[:80] for x in did for y in x]}", "merge(trunk, fork)")
            rep.need(len(calls) >= 0 and not any(q.k == "is" and q.a[1] == "Err" and v and q.a[0] in calls for q, v in facts), f"{name}:ok-cause", f"{p}: success is reported although the transaction failed", "only after the transaction succeeded")
        if outs and outs[0] is not None and P.fns[p].locals[1].startswith("&mut"):
            rep.need(root_param(outs[0]), f"{name}:unchanged", f"{p} changes the original outside merge: {show(outs[0], 4)[:160]}", "unchanged outside merge")
    rep.need(oks and errs, f"{name}:paths", f"{p}: success and failure paths were not both found ({oks}, {errs})", f"{oks} ok, {errs} err")
    rep.need(c.n, f"{name}:merge", f"{p} never merges", "merges")
    rep.use(s)


def root_param(x):
    while x.k == "call" and x.a[0] == "clone": x = x.a[1][0]
    return x.k == "param" and x.a[1] == 0


def result_of_fork(x):
    if x.k == "call" and x.a[0] in ("fork", "fork.await"): return True
    if x.k == "fld" and x.a[2] == "0": return result_of_fork(x.a[0])
    if x.k == "call" and x.a[0].startswith("callfn"): return True
    return x.k in ("mut", "deep", "upd") and any(y.k == "call" and y.a[0] in ("fork", "fork.await") for y in subs(x))
