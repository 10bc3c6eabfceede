"""Syntactic effects over MIR: who writes which field, and how."""
import re

READ_BORROW_OK = ()


def place_hits(fn, pl, adt, names):
    """index of the projection selecting one of the fields of adt, or None"""
    for i, e in enumerate(pl[1:]):
        if e[0] == "f" and e[2] in names and fn.strs[e[3]] == adt: return i, e[2]
    return None


def consumers(P, fn, loc, depth=0, seen=None):
    """names of the functions a local (a mutable borrow) is passed to; 'store' when it is put elsewhere"""
    if seen is None: seen = set()
    if loc in seen or depth > 8: return set()
    seen.add(loc)
    out = set()
    for blk in fn.blocks:
        for s in blk[0]:
            if s[0] != "a": continue
            rv = s[2]
            if rv[0] in ("use", "cast") and rv[1][0] in ("c", "m") and rv[1][1][0] == loc:
                if len(s[1]) == 1: out |= consumers(P, fn, s[1][0], depth + 1, seen)
                else: out.add("store")
            elif rv[0] == "ref" and rv[2][0] == loc:
                if rv[1] == 1 and len(s[1]) == 1: out |= consumers(P, fn, s[1][0], depth + 1, seen)
            elif rv[0] == "agg" and any(o[0] in ("c", "m") and o[1][0] == loc for o in rv[4]):
                out.add("closure" if rv[1] in ("clo", "cor") else "store")
            if s[1][0] == loc and len(s[1]) > 1: out.add("assign")
        t = blk[1]
        if t[0] == "call":
            for o in t[2]:
                if o[0] in ("c", "m") and o[1][0] == loc:
                    c = P.callee(fn, t[1])
                    out.add(c[0].rsplit("::", 1)[-1] if c else "indirect")
    return out


def empty_operand(P, fn, o):
    """The operand is a freshly made empty collection."""
    if o[0] not in ("c", "m") or len(o[1]) != 1: return False
    loc = o[1][0]
    for blk in fn.blocks:
        for s in blk[0]:
            if s[0] == "a" and s[1] == [loc]:
                rv = s[2]
                if rv[0] == "use" and rv[1][0] in ("c", "m"): return empty_operand(P, fn, rv[1])
                return False
        t = blk[1]
        if t[0] == "call" and t[3] == [loc]:
            c = P.callee(fn, t[1])
            return bool(c and c[0].rsplit("::", 1)[-1] in ("new", "default", "with_capacity"))
    return False


def field_writes(P, adt, names):
    """[(function, adt, field, line, how)]"""
    out = []
    a = P.adts.get(adt)
    if not a: return out
    order = [f[0] for f in a["variants"][0][1]]
    for fn in P.fns.values():
        for blk in fn.blocks:
            for s in blk[0]:
                if s[0] != "a": continue
                h = place_hits(fn, s[1], adt, names)
                if h: out.append((fn.path, adt, h[1], s[3], "assign"))
                rv = s[2]
                if rv[0] == "ref" and rv[1] == 1:
                    h = place_hits(fn, rv[2], adt, names)
                    if h:
                        hows = consumers(P, fn, s[1][0]) if len(s[1]) == 1 else {"store"}
                        for how in sorted(hows or {"borrow"}): out.append((fn.path, adt, h[1], s[3], how))
                if rv[0] == "agg" and rv[1] == "adt" and fn.strs[rv[2]] == adt:
                    for i, n in enumerate(order):
                        if n in names and i < len(rv[4]):
                            o = rv[4][i]
                            if fn.derived: continue
                            out.append((fn.path, adt, n, s[3], "construct-empty" if empty_operand(P, fn, o) else "construct"))
            t = blk[1]
            if t[0] == "call":
                h = place_hits(fn, t[3], adt, names)
                if h: out.append((fn.path, adt, h[1], t[5], "assign"))
    return out
