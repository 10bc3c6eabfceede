"""C07: concurrent use never deadlocks on the internal locks."""
import re, collections
from ir import split_generic, strip_refs
from kctx import *

LOCK = re.compile(r"(^|::)(Mutex::(lock|lock_owned)|RwLock::(read|write)|ReentrantMutex::lock)$")
GUARD = re.compile(r"(?:Owned)?(?:MutexGuard|RwLockReadGuard|RwLockWriteGuard|MappedMutexGuard)<")
NOTHELD = re.compile(r"MutexLockFuture|Poll<|(closure|coroutine)#|^&|^\*|MaybeDone|Pin<")
SAME = re.compile(r"::(clone|dupe|deref|deref_mut|as_ref|as_mut|borrow|borrow_mut|into|from|into_future|new_unchecked|get_mut|to_owned)$")
NODE = ("Group", "Document")
WRAP = re.compile(r"^<&?(mut )?alloc::\w*(::\w+)*::Arc<(futures_util|std|async_lock)[\w:]*::(Mutex|RwLock)<([A-Z]\w*)>")


def inner(t, pat):
    """the type argument after pat in t"""
    m = re.search(pat, t)
    if not m: return None
    j, d = m.end(), 1
    k = j
    while d and k < len(t):
        if t[k] in "<([": d += 1
        elif t[k] in ")]" or (t[k] == ">" and t[k - 1] != "-"): d -= 1
        k += 1
    a = [x for x in split_generic("x<" + t[j:k - 1] + ">")[1] if not x.startswith("'")]
    return a[-1] if a else None


def name(t):
    if re.match(r"^[A-Z]\w*$", t): return "random source"
    h, a = split_generic(t)
    if h.split("::")[-1] in NODE: return "group or document"
    return re.sub(r"\b[a-z_0-9]+::", "", t if not h.startswith(("keyhive", "beekem")) else h).replace(", Global", "").replace(", RandomState", "")


class Locks:
    def __init__(self, P):
        self.P = P
        self.tok, self.locks, self.calls, self.sum = {}, {}, {}, {}
        for f in P.fns.values(): self.scan(f)
        self.acq = {p: {c for _, c, _, _ in self.locks[p]} for p in P.fns}
        self.places = {p: {(t, c) for ts, c, _, _ in self.locks[p] for t in ts if t[0] in "pu"} for p in P.fns}
        while True:
            ch = False
            for p in P.fns:
                for qs, args, _, _ in self.calls[p]:
                    for q in qs:
                        if q not in self.acq: continue
                        if not self.acq[q] <= self.acq[p]: self.acq[p] |= self.acq[q]; ch = True
                        for t, c in self.lift(q, args):
                            if t[0] in "pu" and (t, c) not in self.places[p]: self.places[p].add((t, c)); ch = True
            if not ch: break

    def lift(self, q, args):
        """the places q locks, as the caller names them"""
        for t, c in self.places[q]:
            i = t[1] - (1 if t[0] == "p" else 0)
            if i < len(args):
                for a in args[i]:
                    if len(a) + len(t) - 2 <= 6: yield a + t[2:], c

    def callees(self, f, t):
        c = self.P.callee(f, t[1])
        if not c: return set()
        for p in (c[1], c[0]):
            if p in self.P.fns: return {p}
        if c[0] in self.P.by_trait: return {ip for im, ip in self.P.by_trait[c[0]] if ip in self.P.fns}
        return set()

    def tokens(self, f):
        """where each local comes from: parameters, captured variables and the fields reached from them"""
        T = collections.defaultdict(set)
        for i in range(1, f.argc + 1): T[i].add(("p", i))
        body = f.kind in ("closure", "coroutine") or "{closure" in f.path
        def place(pl):
            base, path = T[pl[0]], ()
            out = set()
            for t in base:
                cur = t
                for e in pl[1:]:
                    if e[0] == "f":
                        h = f.strs[e[3]]
                        if "closure#" in h or "coroutine#" in h: cur = ("u", e[1])
                        elif h.startswith(("keyhive", "beekem")): cur = cur + (e[2],)
                    elif e[0] in ("i", "ci", "sub"): cur = None
                    if cur is None or len(cur) > 6: break
                else: out.add(cur)
            return out
        for _ in range(8):
            n = sum(map(len, T.values()))
            for bi, blk in enumerate(f.blocks):
                for s in blk[0]:
                    if s[0] != "a" or len(s[1]) > 1: continue
                    d, rv = s[1][0], s[2]
                    if rv[0] in ("use", "cast"): T[d] |= set().union(*[place(o[1]) for o in rv[1:] if isinstance(o, list) and o and o[0] in ("c", "m")] or [set()])
                    elif rv[0] in ("ref", "addr"): T[d] |= place(rv[2])
                t = blk[1]
                if t[0] == "call" and len(t[3]) == 1:
                    c = self.P.callee(f, t[1])
                    if c and SAME.search(c[0]) and t[2] and t[2][0][0] in ("c", "m"): T[t[3][0]] |= place(t[2][0][1])
                    elif len(f.locals[t[3][0]]) and not T[t[3][0]]: T[t[3][0]].add(("l", t[3][0]))
            if sum(map(len, T.values())) == n: break
        return place

    def scan(self, f):
        place = self.tokens(f)
        wrap = WRAP.search(f.path)
        L, C = [], []
        opt = lambda o: place(o[1]) if o[0] in ("c", "m") else set()
        for bi, blk in enumerate(f.blocks):
            for s in blk[0]:
                if s[0] == "a" and s[2][0] == "agg" and s[2][1] in ("clo", "cor"): C.append(({f.strs[s[2][2]]}, [opt(o) for o in s[2][4]], bi, s[3]))
            t = blk[1]
            if t[0] != "call": continue
            c = self.P.callee(f, t[1])
            if c and LOCK.search(c[0]):
                o = t[2][0]
                ty = f.locals[o[1][0]] if o[0] in ("c", "m") else ""
                x = inner(ty, r"(Mutex|RwLock)<")
                if wrap and x and re.match(r"^[A-Z]\w*$", x): continue
                L.append((opt(o), name(x) if x else "?" + c[0], bi, t[5]))
            else: C.append((self.callees(f, t), [opt(o) for o in t[2]], bi, t[5]))
        self.locks[f.path], self.calls[f.path] = L, C

    def held(self, f):
        """for each block: the guards that may be alive at its start, each with the locking sites it can come from"""
        gl = {}
        for i, t in enumerate(f.locals):
            if GUARD.search(t) and not NOTHELD.search(t): gl[i] = name(inner(t, GUARD.pattern) or "?")
        if not gl: return
        wrap = WRAP.search(f.path)
        # the site a guard comes from: the locks of the same class that precede it without another in between
        inn, todo = {0: (frozenset(), frozenset())}, [0]
        while todo:
            b = todo.pop()
            st, last = set(inn[b][0]), set(inn[b][1])
            blk = f.blocks[b]
            for k, s in enumerate(blk[0]):
                if s[0] == "a":
                    if s[2][0] == "agg" and s[2][1] in ("clo", "cor"): yield "agg", b, s, set(st)
                    src = self.moved(s[2])
                    site = {x for l, x in st if l in src}
                    st = {(l, x) for l, x in st if l not in src}
                    d = s[1][0]
                    if d in gl and len(s[1]) == 1:
                        if not site: site = {x for c, x in last if c == gl[d]} or {None}
                        st |= {(d, x) for x in site}
                elif s[0] == "sd": st = {(l, x) for l, x in st if l != s[1]}
            t = blk[1]
            if t[0] == "call":
                yield "call", b, t, set(st)
                src = {o[1][0] for o in t[2] if o[0] == "m" and len(o[1]) == 1}
                site = {x for l, x in st if l in src}
                st = {(l, x) for l, x in st if l not in src}
                c = self.P.callee(f, t[1])
                if c and LOCK.search(c[0]):
                    o = t[2][0]
                    x = inner(f.locals[o[1][0]], r"(Mutex|RwLock)<") if o[0] in ("c", "m") else None
                    n = name(x) if x else "?"
                    last = {(k, y) for k, y in last if k != n} | {(n, b)}
                if t[3][0] in gl and len(t[3]) == 1:
                    if not site: site = {x for k, x in last if k == gl[t[3][0]]} or {None}
                    st |= {(t[3][0], x) for x in site}
            elif t[0] == "drop" and len(t[1]) == 1: st = {(l, x) for l, x in st if l != t[1][0]}
            for n in f.succ(b):
                o = inn.get(n, (frozenset(), frozenset()))
                if n not in inn or not (st <= o[0] and last <= o[1]):
                    inn[n] = (o[0] | st, o[1] | last); todo.append(n)

    def moved(self, x, out=None):
        out = set() if out is None else out
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "m" and isinstance(x[1], list) and len(x[1]) == 1: out.add(x[1][0])
            else:
                for y in x: self.moved(y, out)
        return out


def run(rep, P, tier):
    """Lock-order analysis over all functions. What is held is computed from the lifetimes of the guards in the MIR; what a call may lock
    from the call graph. Locks are told apart by what they protect, and by the place they are reached from. Obligations: no place is
    locked while its guard is alive; no lock there is one of per instance is taken while one of its kind is held; the order in which
    kinds of locks are taken has no cycle. (Groups and documents among themselves follow the membership graph and are one kind.)"""
    W = Locks(P)
    edges, nlock, nheld = collections.defaultdict(list), 0, 0
    for f in P.fns.values():
        nlock += len(W.locks[f.path])
        site = {b: (ts, c, line) for ts, c, b, line in W.locks[f.path]}
        gl = {i: name(inner(t, GUARD.pattern) or "?") for i, t in enumerate(f.locals) if GUARD.search(t) and not NOTHELD.search(t)}
        if WRAP.search(f.path): gl = {i: c for i, c in gl.items() if c != "random source"}
        bycall = collections.defaultdict(list)
        for qs, args, b, line in W.calls[f.path]: bycall[b].append((qs, args, line))
        seen = set()
        for kind, b, x, st in W.held(f):
            st = {(l, s) for l, s in st if l in gl}
            if not st: continue
            if kind == "call" and b in site: new = [({site[b][1]}, {(t, site[b][1]) for t in site[b][0]}, site[b][2], "the lock")]
            else:
                new = []
                for qs, args, line in bycall[b]:
                    for q in qs:
                        if q in W.acq and (q == f.strs[x[2][2]] if kind == "agg" else q in W.callees(f, x)): new.append((W.acq[q], set(W.lift(q, args)), line, q))
            for l, s in st:
                nheld += 1
                mine = site[s][0] if s in site else set()
                for cs, places, line, q in new:
                    key = (l, s, line, q)
                    if key in seen: continue
                    seen.add(key)
                    where = f"{f.path} ({f.file}:{line})"
                    same = [(t, c) for t, c in places if t in mine and t[0] in "pul" and c == gl[l]]
                    if same: rep.bad(f"again:{f.path}:{gl[l]}", f"{where}: {q} locks what this function already holds ({gl[l]})")
                    known = {c for _, c in places}
                    for c in cs:
                        if c == gl[l]:
                            if c in ("group or document", "Individual") or same: continue
                            if mine and q == "the lock" and places: continue   # two different places (an instance and its fork)
                        edges[(gl[l], c)].append(f"{where} takes {c} while it holds {gl[l]}" + (f", through {q}" if q != "the lock" else ""))
        rep.ok("guards", "locks taken while others are held")
    rep.floor("locks", nlock, 150, "places that lock")
    rep.floor("held", nheld, 40, "places where something is locked or called while a lock is held")
    G = collections.defaultdict(set)
    for a, b in edges:
        if a != b: G[a].add(b)
    for a, b in sorted(edges):
        if a == b: rep.bad(f"again:{a}", f"{a} is locked again while it is held: {edges[(a, b)][0]}")
        elif reaches(G, b, a):
            rep.bad(f"order:{a}:{b}", f"{edges[(a, b)][0]}; elsewhere {back(G, edges, b, a)}")
        else: rep.ok("order", "kinds of locks taken in one order")
    rep.floor("order:edges", len(edges), 20, "pairs of kinds of locks")


def reaches(G, a, b):
    seen, todo = set(), [a]
    while todo:
        n = todo.pop()
        if n == b: return True
        if n not in seen: seen.add(n); todo += G[n]
    return False


def back(G, edges, a, b):
    prev, todo = {a: None}, [a]
    while todo:
        n = todo.pop(0)
        if n == b: break
        for m in sorted(G[n]):
            if m not in prev: prev[m] = n; todo.append(m)
    path = [b]
    while prev[path[0]] is not None: path.insert(0, prev[path[0]])
    return "; ".join(edges[(x, y)][0] for x, y in zip(path, path[1:]))
