"""Rules about proof chains, shared by the delegation and the revocation checks."""
from sim import mk, subs, show
from kctx import *

TRUNC = ("skip", "take", "step_by", "skip_while", "take_while", "map_while", "filter", "filter_map", "rev_take", "first", "last", "nth", "get")


def has(facts, pred): return any(pred(p, t) for p, t in facts)


def eq_is(facts, x, y):
    """facts contain x == y"""
    for p, t in facts:
        if p.k == "eq" and t and ({id(p.a[0]), id(p.a[1])} == {id(x), id(y)} or (p.a[0] is x and p.a[1] is y) or (p.a[1] is x and p.a[0] is y)): return True
    return False


def eqs(facts):
    for p, t in facts:
        if p.k == "eq" and t:
            yield p.a[0], p.a[1]
            yield p.a[1], p.a[0]


def issuer_of(t):
    """X for X.issuer"""
    if t.k == "fld" and t.a[2] == "issuer": return t.a[0]
    return None


def ident_of_delegate(t):
    """P for ident(P.payload.delegate)"""
    if not is_call(t, "ident"): return None
    a = t.a[1][0]
    b, f = fpath(a)
    if f[-2:] != ("payload", "delegate"): return None
    return drop(a, 2)


def drop(t, n):
    for _ in range(n): t = t.a[0]
    return t


def fld(t, *names):
    """Does t end with these fields? Returns the base."""
    for n in reversed(names):
        if t.k != "fld" or t.a[2] != n: return None
        t = t.a[0]
    return t


def group_id(t, root="self"):
    """self.id / self.state.id"""
    b, f = fpath(t)
    return b.k == "param" and b.a[2] == root and f[-1:] == ("id",)


def none_proof(facts, X):
    """X.payload.proof is known to be None"""
    for p, t in facts:
        if p.k == "is" and fld(p.a[0], "payload", "proof") is X:
            if (p.a[1] == "None") == bool(t): return True
    return False


def some_proof(facts, X):
    for p, t in facts:
        if p.k == "is" and fld(p.a[0], "payload", "proof") is X:
            if (p.a[1] == "Some") == bool(t): return True
    return False


def is_lineage_of(t, H):
    return is_call(t, "lineage") and t.a[1] and fld(t.a[1][0], "payload") is H


def lin_elem(t, H):
    """elem(lineage(H.payload))"""
    return t.k == "elem" and is_lineage_of(t.a[0], H)


def transitive_with(facts, who, proof, access_ok):
    """who.issuer is a transitive member of proof's delegate, with at least the demanded access: a fact
    lt(get(tm(..proof.delegate..), who.issuer).1, A) = False with A accepted."""
    for p, t in facts:
        if p.k != "lt" or t: continue
        x, a = p.a
        if not access_ok(a): continue
        key_ok = tm_ok = False
        for s in subs(x):
            if s.k == "call" and s.a[0].split("::")[-1] in ("get", "get_mut", "remove", "get_key_value", "find", "find_map") :
                for y in s.a[1]:
                    if y.k == "fld" and y.a[2] == "issuer" and y.a[0] is who: key_ok = True
            if is_call(s, "tm") or is_call(s, "tm.await"):
                for y in subs(s):
                    if fld(y, "payload", "delegate") is proof: tm_ok = True
        if key_ok and tm_ok: return True
    return False


def link_ok(facts, who, proof, access_ok):
    """who was issued by proof's delegate, or by a sufficiently powerful transitive member of it."""
    for x, y in eqs(facts):
        if issuer_of(x) is who and ident_of_delegate(y) is proof: return "direct"
    if transitive_with(facts, who, proof, access_ok): return "transitive"
    return None


def judge_links(rep, key, ends, H):
    """Every completed step of a walk over H's proof chain must have established the access bound and a link.
    Returns whether the first link (of H itself) was among them."""
    first = False
    n = 0
    for e, facts, where in ends:
        els = [x for x in subs(e) if lin_elem(x, H)]
        if not els: continue
        pr = els[0]
        n += 1

        def acc_ok(a): return fld(a, "payload", "can") is H
        bound = any(p.k == "lt" and not t and fld(p.a[0], "payload", "can") is pr and fld(p.a[1], "payload", "can") is H
                    for p, t in facts)
        rep.need(bound, f"{key}:bound", f"{where}: a step over the proof chain completes without establishing that the "
                 f"delegation's access does not exceed the access of the proof ({show(e, 6)})", where)
        # which delegation does this step look at: H itself (the first link) or one behind it?
        of_head = (e.k == "agg" and e.a[0] == "tup" and any(x is H for x in e.a[3])) or any(
            p.k == "eq" and issuer_of(a) is H and ident_of_delegate(b) is pr
            for p, _ in facts if p.k == "eq" for a, b in (p.a, p.a[::-1]))
        lk = link_ok(facts, H, pr, acc_ok)
        if lk: first = True
        elif not of_head: lk = link_ok(facts, pr, pr, acc_ok)
        rep.need(bool(lk), f"{key}:link", f"{where}: a step over the proof chain completes without establishing that the link "
                 f"is signed by the proof's delegate or by a transitive member of it with the granted access ({show(e, 6)})", f"{where} {lk}")
    rep.analysed[f"{key}:chain_steps"] = n
    return first, n


def walked(facts, H):
    """The whole proof chain of H has been walked: (ok, why not)"""
    for p, t in facts:
        if p.k == "iterating" and t and any(lin_elem(x, H) for x in subs(p.a[0])): return False, "the walk over the chain was abandoned half way"
    why = "the proof chain is not walked"
    for p, t in facts:
        if p.k == "exhausted" and t and any(is_lineage_of(x, H) for x in subs(p.a[0])):
            cut = [x.a[0] for x in subs(p.a[0]) if x.k == "call" and x.a[0].split("::")[-1] in TRUNC]
            if cut: why = f"the walk skips part of the chain ({cut[0].split('::')[-1]})"; continue
            return True, ""
    return False, why
