"""Shared vocabulary of keyhive for the checks."""
import re
import sim
from sim import mk, subs, T, show

KC = "keyhive_core::"
AG = KC + "principal::agent::Agent"
GS = KC + "principal::group::state::GroupState"
GR = KC + "principal::group::Group"
DOC = KC + "principal::document::Document"
KH = KC + "keyhive::Keyhive"
DLG = KC + "principal::group::delegation::Delegation"
REV = KC + "principal::group::revocation::Revocation"
IND = KC + "principal::individual::Individual"
SIGNED = "keyhive_crypto::signed::Signed"
ACC = KC + "access::Access"
CGKA = "beekem::cgka::Cgka"


def fpath(t):
    """a.b.c -> (a, ('b', 'c')), looking only through field selections."""
    names = []
    while t.k == "fld":
        names.append(t.a[2])
        t = t.a[0]
    return t, tuple(reversed(names))


def fields(t):
    return fpath(t)[1]


def is_call(t, *names):
    return t.k == "call" and any(t.a[0] == n or t.a[0].endswith("::" + n) for n in names)


def has_call(t, *names):
    return any(is_call(x, *names) for x in subs(t))


CANON = {}


def canon_table(P):
    """Names for functions whose result is a semantic notion of its own."""
    c = {}
    for f in P.fns.values():
        p = f.path
        if p.startswith(f"<{AG}<") and p.endswith("Verifiable>::verifying_key"): c[p] = "ident"
    c[f"{AG}::id"] = "ident"
    c[f"{AG}::agent_id"] = "ident"
    for n in ("principal::membered::Membered", "principal::group::Group", "principal::document::Document"):
        c[f"{KC}{n}::transitive_members"] = "tm"
        c[f"{KC}{n}::transitive_members_except"] = "tm"
    c[f"{DLG}::proof_lineage"] = "lineage"
    c[f"<{SIGNED}<{DLG}<F, S, T, L>> as {KC}crypto::signed_ext::SignedSubjectId>::subject_id"] = "subject"
    return c


STOP = (
    r"Digest::hash$", r"Signed::digest$", r"content_addressed_map::CaMap::", r"store::(delegation|revocation)::\w+Store::",
    r"Listener>?::on_", r"as keyhive_core::listener", r"\bserialize\b", r"::stats::", r"debug_events",
    r"is_ancestor_of$", r"is_descendant_of$", r"reverse_topsort$",
)


class KCtx(sim.Ctx):
    def __init__(self, P):
        self.P = P
        self.canon = canon_table(P)
        self.inline_stop = STOP


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.out = {}
        self.inn = {}
        for f in P.fns.values():
            o = self.out.setdefault(f.path, set())
            for blk in f.blocks:
                t = blk[1]
                if t[0] == "call":
                    c = P.callee(f, t[1])
                    if c: self._edge(f, c)
                    for op in t[2]:
                        if op[0] == "fn":
                            r = op[1]
                            o.add(f.strs[r.get("res", r["fn"])])
                for s in blk[0]:
                    if s[0] == "a" and s[2][0] == "agg" and s[2][1] in ("clo", "cor"):
                        o.add(f.strs[s[2][2]])
                    if s[0] == "a" and s[2][0] in ("use", "cast"):
                        op = s[2][1]
                        if op[0] == "fn":
                            r = op[1]
                            o.add(f.strs[r.get("res", r["fn"])])
        for a, bs in self.out.items():
            for b in bs: self.inn.setdefault(b, set()).add(a)

    def _edge(self, f, c):
        path, res, tr, ta = c
        o = self.out.setdefault(f.path, set())
        o.add(path); o.add(res)
        if path == "core::convert::Into::into" and len(ta) == 2:
            o.add(f"<{ta[1]} as core::convert::From<{ta[0]}>>::from")
        if tr and res == path:
            # unresolved trait call: any implementation
            for im, ip in self.P.by_trait.get(path, []): o.add(ip)

    def reach(self, roots, without=()):
        seen = set()
        todo = [r for r in roots if r not in without]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for y in self.out.get(x, ()):
                if y not in seen and y not in without: todo.append(y)
        return seen


def weight(fn):
    """how much a function does: its calls, without those of logging"""
    return sum(b[1][0] == "call" and "tracing" not in str(b[1][6]) for b in fn.blocks)
