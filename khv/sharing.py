"""Which values share mutable state with which: a flow-insensitive dataflow over MIR, cut by types.

A value can only share mutable state with another one when its type contains a shared pointer to, or a borrow of, something with
interior mutability. A value of any other type is a copy. Labels name the field of the source that is shared."""
import re
from ir import split_generic, strip_refs

PTR = ("alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "alloc::sync::Arc", "alloc::rc::Rc", "alloc::rcs::arc::Weak", "alloc::rcs::rc::Weak", "alloc::sync::Weak")
CELL = re.compile(r"(^|::)(Mutex|RwLock|RefCell|Cell|UnsafeCell|Atomic\w+|AsyncMutex|AsyncCell)$")
GUARD = re.compile(r"(Guard|LockFuture|^core::cell::Ref|^core::cell::RefMut|Sender|Receiver)$")
PARAM = re.compile(r"^[A-Z][A-Za-z0-9]{0,2}$")


class Sharing:
    def __init__(self, P, opaque_owners=(), contracts=()):
        self.P = P
        self.memo = {}
        self.sum = {}
        self.busy = set()
        self.contracts = contracts     # trait methods whose implementations are themselves decided
        self.opaque = set()            # type parameters that stand for a whole component (a signer, a store)
        for a in opaque_owners:
            for vn, fs in P.adts[a]["variants"]:
                for f in fs:
                    t = f[1]
                    while True:
                        h, args = split_generic(t)
                        if args and (h in PTR or CELL.search(h)): t = args[0]
                        else: break
                    if PARAM.match(t): self.opaque.add(t)
        self.fns = set()
        self.ftype, self.fown, self.trees = {}, {}, {}
        self.owners = set(P.adts) | self.opaque

    # -- types
    def shares(self, t): return self._t(t, False)

    def holds(self, t): return self._t(t, True)

    def _t(self, t, cell):
        k = (t, cell)
        if k in self.memo: return self.memo[k]
        self.memo[k] = False
        r = self._ty(t, cell)
        self.memo[k] = r
        return r

    def _ty(self, t, cell):
        if t.startswith(("&", "*const ", "*mut ")): return self.holds(strip_refs(t))
        if t.startswith("(") and t.endswith(")"):
            return any(self._t(x, cell) for x in split_generic("t<" + t[1:-1] + ">")[1])
        if t.startswith("["): return self._t(re.split(r";", t[1:-1])[0].strip(), cell)
        if t.startswith(("coroutine#", "closure#", "dyn ", "alias#", "impl ", "core::pin::Pin<")): return True
        h, args = split_generic(t)
        if h in PTR: return self.holds(args[0])
        if CELL.search(h): return cell or any(self._t(x, cell) for x in args)
        if GUARD.search(h): return True
        if PARAM.match(h) and not args: return h in self.opaque
        a = self.P.adts.get(h)
        if a:
            for vn, fs in a["variants"]:
                for f in fs:
                    if self._t(f[1], cell): return True
            return any(x in self.opaque and False or not PARAM.match(x) and self._t(x, cell) for x in args if not x.startswith(("closure#", "coroutine#")) or True)
        return any(self._t(x, cell) for x in args)

    def borrows(self, t):
        """a value of type t can give access to what it was made from"""
        return "&" in t or "coroutine#" in t or any(GUARD.search(x) for x in self.tree(t))

    def tree(self, t):
        """every type a value of type t can contain or point to"""
        if t in self.trees: return self.trees[t]
        out, todo = set(), [t]
        while todo:
            x = strip_refs(todo.pop())
            if x in out: continue
            out.add(x)
            if x.startswith("(") and x.endswith(")"): todo += split_generic("t<" + x[1:-1] + ">")[1]; continue
            h, args = split_generic(x)
            out.add(h)
            if h in self.P.adts: todo += [f[1] for vn, fs in self.P.adts[h]["variants"] for f in fs]; todo += [y for y in args if not PARAM.match(y)]
            else: todo += args
        self.trees[t] = out
        return out

    # -- values
    def summary(self, path):
        """labels of the result: {(index of the argument or captured variable, field or None)}"""
        if path in self.sum: return self.sum[path]
        if path in self.busy: return None
        fn = self.P.fns.get(path)
        if fn is None: return None
        self.busy.add(path)
        r = self.flow(fn)
        self.busy.discard(path)
        self.sum[path] = r
        return r

    def read(self, fn, lab, pl):
        ls = lab.get(pl[0], frozenset())
        for e in pl[1:]:
            if e[0] != "f": continue
            own = fn.strs[e[3]]
            if own.startswith(("coroutine#", "closure#")) and pl[0] == 1 and fn.parent:
                ls = frozenset([(int(e[2]), None)])
            elif ls and own in self.P.adts:
                vs = [f[1] for vn, fs in self.P.adts[own]["variants"] for f in fs if f[0] == e[2]]
                if not any(self.holds(v) or PARAM.match(v) for v in vs): return frozenset()
                if own.startswith("core::") or e[2].isdigit(): continue
                n = f"{own.rsplit('::', 1)[-1]}.{e[2]}"
                self.ftype[n] = vs
                self.fown[n] = own
                ls = frozenset((i, n) if f is None or any(own in self.tree(v) for v in self.ftype[f]) else (i, f) for i, f in ls
                               if f is None or any(own in self.tree(v) or any(self.tree(v) & self.tree(w) & self.owners for w in vs) for v in self.ftype[f]))
        return ls

    def reaches(self, fn, o, f):
        """field f can be inside the operand"""
        if f is None or o[0] not in ("c", "m") or len(o[1]) != 1: return True
        ty = fn.locals[o[1][0]]
        if "coroutine#" in ty or "closure#" in ty or "alias#" in ty: return True
        return self.fown[f] in self.tree(ty)

    def ops(self, rv):
        """operands and places read by an rvalue"""
        out = []
        def walk(x):
            if isinstance(x, list) and x:
                if x[0] in ("c", "m") and len(x) == 2 and isinstance(x[1], list): out.append(x[1]); return
                for y in x[1:] if isinstance(x[0], str) else x: walk(y)
        if rv[0] == "ref": return [rv[2]]
        if rv[0] in ("addr", "rawptr") and isinstance(rv[-1], list): return [rv[-1]]
        walk(rv)
        return out

    def flow(self, fn):
        self.fns.add(fn.path)
        lab, refs = {}, {}
        if not fn.parent or fn.kind == "fn" or "::{closure#" not in fn.path.rsplit("::", 1)[-1]:
            for i in range(fn.argc): lab[i + 1] = frozenset([(i, None)])
        live = lambda i: self.shares(fn.locals[i])
        changed = True

        def put(pl, ls):
            nonlocal changed
            i = pl[0]
            if not ls: return
            if len(pl) == 1 and not live(i): return
            if len(pl) > 1 and not self.holds(fn.locals[i]): return
            old = lab.get(i, frozenset())
            if not ls <= old:
                lab[i] = old | ls
                changed = True
                for r in refs.get(i, ()): put([r], ls)

        while changed:
            changed = False
            for blk in fn.blocks:
                for s in blk[0]:
                    if s[0] != "a": continue
                    rv = s[2]
                    if rv[0] == "agg" and rv[1] in ("clo", "cor"):
                        body = fn.strs[rv[2]]
                        sm = self.summary(body)
                        ls = set()
                        for i, o in enumerate(rv[4]):
                            if o[0] not in ("c", "m"): continue
                            here = self.read(fn, lab, o[1])
                            if sm is None: ls |= here; continue
                            for j, f in sm:
                                if j == i and self.reaches(fn, o, f): ls |= {(k, f if f else g) for k, g in here}
                        put(s[1], frozenset(ls))
                        continue
                    if rv[0] == "ref" and len(s[1]) == 1:
                        b = rv[2][0]
                        if rv[1] == 1 and s[1][0] not in refs.setdefault(s[1][0], set()): refs[s[1][0]].add(b)
                    ls = frozenset().union(*[self.read(fn, lab, p) for p in self.ops(rv)], frozenset())
                    if len(s[1]) == 1 and self.borrows(fn.locals[s[1][0]]): refs.setdefault(s[1][0], set()).update(p[0] for p in self.ops(rv))
                    put(s[1], ls)
                t = blk[1]
                if t[0] == "call":
                    args = [self.read(fn, lab, o[1]) if o[0] in ("c", "m") else frozenset() for o in t[2]]
                    c = self.P.callee(fn, t[1])
                    ls = None
                    if c:
                        if c[0] in self.contracts: ls = frozenset()
                        else:
                            sm = self.summary(c[1])
                            if sm is not None: ls = frozenset((k, f if f else g) for j, f in sm if j < len(args) and self.reaches(fn, t[2][j], f) for k, g in args[j])
                    if ls is None: ls = frozenset().union(*args, frozenset())
                    if len(t[3]) == 1 and self.borrows(fn.locals[t[3][0]]): refs.setdefault(t[3][0], set()).update(o[1][0] for o in t[2] if o[0] in ("c", "m"))
                    put(t[3], ls)
                    for i, o in enumerate(t[2]):
                        if o[0] in ("c", "m") and len(o[1]) == 1 and fn.locals[o[1][0]].startswith("&mut "):
                            rest = frozenset().union(*[a for j, a in enumerate(args) if j != i], frozenset())
                            put([o[1][0]], rest)
                elif t[0] == "yield": pass
        return frozenset(lab.get(0, frozenset())) if live(0) else frozenset()
