"""The key tree of a document: functions that change it, and how (shared by C10 and C19).

The final value of `self` is tracked as a term: changes made by opaque callees appear as mut(callee, old value, arguments)."""
import sim
from sim import mk, subs, show
from kctx import *
import inserters

GRAPH = "beekem::operation::CgkaOperationGraph"
TREE = "beekem::tree::BeeKem"
REPLAY = CGKA + "::replay_ops_graph"
MERGE = CGKA + "::merge_concurrent_operation"
OPK = "beekem::operation::CgkaOperation"


def mutself(P, adt):
    """methods taking &mut self of that type"""
    return {f.path for f in P.fns.values() if f.argc and f.locals[1] == "&mut " + adt and "{" not in f.path}


def creators(P, g):
    """public methods of Cgka that create signed operations (they sign, directly or through helpers)"""
    r = set()
    for p in mutself(P, CGKA):
        if P.fns[p].vis == "Public" and any("AsyncSigner::try_sign" in x or x.endswith("try_sign_async") for x in g.reach([p])): r.add(p)
    return r


class K(KCtx):
    mutates = True

    def __init__(self, P, me, opq):
        super().__init__(P)
        self.me, self.opq = me, set(opq) - {me}
        self.graph = mutself(P, GRAPH)
        self.signs, self.uses, self.touch = [], [], []
        self.inline_stop = tuple(self.inline_stop) + (r"CgkaOperationGraph::topsort", r"^beekem::tree::", r"PcsKey::")

    def opaque(self, p):
        return p in self.opq or p in self.graph

    def keep(self, p):
        if p.k == "touched": return True
        return any(x.k == "fld" and x.a[2] in ("pending_ops_for_structural_change", "cgka_op_heads", "cgka_ops", "payload") or
                   (x.k == "call" and x.a[0].startswith(CGKA)) for x in subs(p))

    def mut_term(self, name, old, args):
        if name in self.opq:
            return old if old.k == "mut" and old.a[0] == name else mk("mut", name, old, ())
        return mk("mut", name, old, args)

    def on_place(self, s, st, fn, base, key, val):
        if key[1] in ("tree", "ops_graph") and key[0] == CGKA and owned(base):
            if s.field(base, *key) is not val: st.facts = st.facts | {(mk("touched", key[1]), True)}

    def on_call(self, s, st, fn, bb, path, res, args, line, mac, ta):
        w = f"{fn.path} ({fn.file}:{line})"
        if path.startswith("keyhive_crypto::signer::async_signer::AsyncSigner::"): self.signs.append((st.facts, w))
        for a in args:
            a = s.strip_mref(fn, st.env, a)
            if a.k == "fld" and a.a[2] == "tree" and a.a[1] == CGKA: self.uses.append((a, st.facts, w))
        return None


def owned(v):
    """the value is (derived from) the Cgka the method was called on"""
    while True:
        if v.k == "upd": v = v.a[0]
        elif v.k == "mut": v = v.a[1]
        else: return v.k == "param"


def replayed(v):
    while True:
        if v.k == "upd": v = v.a[0]
        elif v.k == "mut":
            if v.a[0] == REPLAY: return True
            v = v.a[1]
        else: return False


def changes(v, consistent):
    """{field: [values]} set on the way from the initial value to v; None when part of it is unknown.
    Consistent callees (verified on their own) keep tree and history in step; a replay rebuilds the tree from the history."""
    out = {}
    while True:
        if v.k == "upd":
            out.setdefault(v.a[1][1], []).append(v.a[2]); v = v.a[0]
        elif v.k == "mut" and v.a[0] == REPLAY: 
            for k in ("tree", "pending_ops_for_structural_change"): out.setdefault(k + "@before", []).extend([])
            v = v.a[1]
        elif v.k == "mut" and v.a[0] in consistent: v = v.a[1]
        elif v.k == "param": return out
        else: return None


def settled(facts, base):
    """no operations wait to be replayed, on this path"""
    if replayed(base): return True
    pend = single = empty = None
    for p, t in facts:
        if p.k == "fld" and p.a[2] == "pending_ops_for_structural_change": pend = t
        if p.k == "call" and p.a[0].rsplit("::", 1)[-1] == "is_empty" and fields(p.a[1][0])[-1:] == ("cgka_op_heads",): empty = t
        if p.k == "eq" and any(x.k == "call" and x.a[0].rsplit("::", 1)[-1] == "len" and fields(x.a[1][0])[-1:] == ("cgka_op_heads",) for x in p.a) \
                and any(x.k == "const" and x.a[0] == "1" for x in p.a): single = t
    return empty is True or (pend is False and single is True)


def outcome(ret):
    """'Ok', 'Err' or '?'"""
    if ret.k == "phi" and ret.a[0]:
        r = {outcome(x) for x in ret.a[0]}
        return r.pop() if len(r) == 1 else "?"
    if ret.k == "agg" and ret.a[1] == sim.RES: return ret.a[2]
    return "?"
