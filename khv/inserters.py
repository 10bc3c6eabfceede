"""Call-graph dominance: a sink can only be reached through audited functions."""
import re
from kctx import CallGraph


def base(p):
    return re.sub(r"(::\{(closure|coroutine|async)[^}]*\})+", "", p).split("::reify_ops")[0]


def check(rep, P, kind, sink, audited, least):
    g = CallGraph(P)
    sites = sorted(f for f, outs in g.out.items() if sink in outs)
    rep.floor(f"inserting_functions:{kind}", len(sites), least, f"functions inserting into {kind} stores")
    aud = {p for p in g.out if base(p) in audited}
    roots = [f.path for f in P.fns.values() if f.path not in aud and (f.path.startswith("keyhive_core::") or f.path.startswith("<keyhive_core"))]
    roots = [r for r in roots if not g.inn.get(r)]
    seen = g.reach(roots, without=aud)
    for s_ in sites:
        rep.need(s_ not in seen or s_ in aud, f"inserter:{base(s_)}", f"{s_} inserts into a {kind} store and can be reached without "
                 "passing through the checked entry points", s_)


def dominated(P, g, roots):
    """Functions only reachable through the given ones (helpers of theirs)."""
    aud = {p for p in g.out if base(p) in roots}
    tops = [f.path for f in P.fns.values() if f.path not in aud and not g.inn.get(f.path)]
    outside = g.reach(tops, without=aud)
    inside = g.reach(aud)
    return {base(p) for p in inside if p not in outside}
