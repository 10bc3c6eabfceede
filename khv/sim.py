"""Path-sensitive, interprocedural dataflow over MIR.

The abstract state is (environment: local -> value term, facts: set of (predicate term, truth)).
Values are hash-consed symbolic terms (provenance, not concrete values): no solver, no execution.
Workspace callees are inlined virtually; their results are memoised per (callee, argument terms, facts).
At joins with too many states the states are merged: facts are intersected, differing values forgotten.
"""
import re, time, sys
import ir

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("k", "a", "n", "d", "_s")

    def __hash__(self): return self.n   # terms are unique; the same order on every run

    def __repr__(self):
        return show(self)


_tab = {}


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.n = len(_tab)
        d = 0
        for x in a:
            if isinstance(x, T):
                if x.d > d: d = x.d
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T) and y.d > d: d = y.d
        t.d = d + 1
        t._s = None
        _tab[key] = t
    return t


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, T): yield y


def subs(t):
    s = t._s
    if s is None:
        s = {t}
        for x in kids(t):
            s |= subs(x)
        s = frozenset(s)
        t._s = s
    return s


def short(p):
    p = re.sub(r"<.*?>", "", p) if p.count("<") < 6 else p
    return "::".join(p.split("::")[-2:])


def show(t, depth=6):
    if not isinstance(t, T): return str(t)
    if depth == 0: return "…"
    f = lambda x: show(x, depth - 1)
    k = t.k
    if k == "param": return f"{t.a[2]}"
    if k == "fld":
        return f"{f(t.a[0])}.{('(' + t.a[3] + ').') if t.a[3] else ''}{t.a[2]}"
    if k == "const": return str(t.a[0])
    if k == "named": return short(t.a[0])
    if k == "call": return f"{short(t.a[0])}({', '.join(f(x) for x in t.a[1])})"
    if k == "agg":
        nm = short(t.a[1]) if t.a[1] else t.a[0]
        return f"{nm}{('::' + t.a[2]) if t.a[2] else ''}({', '.join(f(x) for x in t.a[3])})"
    if k == "upd": return f"{f(t.a[0])}{{..}}"
    if k == "coll": return "[" + ", ".join(sorted(f(x) for x in t.a[1])) + "]"
    return f"{k}({', '.join(f(x) if isinstance(x, T) else str(x) for x in t.a)})"


TRUE = mk("const", "1", "bool")
FALSE = mk("const", "0", "bool")
UNIT = mk("agg", "tup", "", "", ())
NEVER = mk("never")

OPT, RES, CF, POLL = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow", "core::task::poll::Poll"
ORD = "core::cmp::Ordering"
VARIANTS = {
    OPT: ["None", "Some"], RES: ["Ok", "Err"], CF: ["Continue", "Break"], POLL: ["Ready", "Pending"],
    ORD: ["Less", "Equal", "Greater"],
    "std::collections::hash::map::Entry": ["Occupied", "Vacant"],
    "alloc::collections::btree::map::entry::Entry": ["Vacant", "Occupied"],
    "alloc::borrow::Cow": ["Borrowed", "Owned"],
}


def some(v): return mk("agg", "adt", OPT, "Some", (v,))


NONE = mk("agg", "adt", OPT, "None", ())


def ok(v): return mk("agg", "adt", RES, "Ok", (v,))


def err(v): return mk("agg", "adt", RES, "Err", (v,))


def ready(v): return mk("agg", "adt", POLL, "Ready", (v,))


def b(x): return TRUE if x else FALSE


def neg(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.k == "not": return t.a[0]
    return mk("not", t)


def mk_is(v, adt, name):
    if v.k == "agg" and v.a[0] == "adt" and v.a[2]:
        return b(v.a[2] == name)
    if v.k == "upd" and v.a[0].k == "agg":
        return mk_is(v.a[0], adt, name)
    return mk("is", v, name)


def mk_eq(x, y):
    if x is y: return TRUE
    if x.k == "const" and y.k == "const":
        return b(x.a[0] == y.a[0])
    for p, q in ((x, y), (y, x)):
        if p.k == "agg" and p.a[0] == "adt" and p.a[2] and not p.a[3]:
            # comparison with a unit variant
            if q.k == "agg" and q.a[0] == "adt":
                return b(q.a[2] == p.a[2]) if q.a[2] else mk("eq", x, y)
            return mk("is", q, p.a[2])
    if x.k == "agg" and y.k == "agg" and x.a[0] == "adt" and x.a[1] == y.a[1] and x.a[2] and y.a[2]:
        if x.a[2] != y.a[2]: return FALSE
        if len(x.a[3]) == len(y.a[3]) == 1:
            return mk_eq(x.a[3][0], y.a[3][0])
    if x.n > y.n: x, y = y, x
    return mk("eq", x, y)


ENUM_ORD = {}   # enum -> variants in their derived order


def mk_lt(x, y):
    if x is y: return FALSE
    if x.k == "agg" and y.k == "agg" and x.a[0] == "adt" and x.a[1] == y.a[1] and x.a[1] in ENUM_ORD and not x.a[3] and not y.a[3]:
        o = ENUM_ORD[x.a[1]]
        return b(o.index(x.a[2]) < o.index(y.a[2]))
    return mk("lt", x, y)


OPQ_TRAITS = re.compile(r"^(core::fmt::|core::hash::|core::cmp::|core::clone::|dupe::|serde|core::error::|std::error::|core::default::|arbitrary|proptest|core::marker)")


START = time.time()


class Budget(Exception):
    pass


IDENT = {
    "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
    "core::convert::AsMut::as_mut",
    "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut", "core::clone::Clone::clone",
    "dupe::Dupe::dupe", "alloc::borrow::ToOwned::to_owned", "alloc::rcs::arc::Arc::new", "alloc::boxed::Box::new",
    "alloc::rcs::rc::Rc::new", "alloc::boxed::Box::pin", "core::pin::Pin::new", "core::pin::Pin::new_unchecked",
    "core::future::into_future::IntoFuture::into_future", "alloc::rcs::arc::Arc::unwrap_or_clone",
    "futures_util::lock::mutex::Mutex::new", "core::option::Option::as_ref", "core::option::Option::as_mut",
    "core::option::Option::as_deref", "core::option::Option::as_deref_mut", "core::option::Option::cloned",
    "core::option::Option::copied", "core::result::Result::as_ref", "core::result::Result::as_mut",
    "core::result::Result::cloned", "core::result::Result::copied", "dupe::option::OptionDupedExt::duped",
    "core::mem::ManuallyDrop::new", "core::iter::traits::iterator::Iterator::by_ref",
    "core::iter::traits::iterator::Iterator::cloned", "core::iter::traits::iterator::Iterator::copied",
    "dupe::iter::IterDupedExt::duped", "core::iter::traits::collect::IntoIterator::into_iter", "[T]::iter",
    "[T]::iter_mut", "alloc::vec::Vec::iter", "alloc::vec::Vec::as_slice", "[T; N]::as_slice", "[T]::to_vec",
    "[T]::into_vec", "alloc::vec::Vec::as_mut_slice", "alloc::vec::Vec::into_boxed_slice",
    "std::collections::hash::set::HashSet::iter", "alloc::collections::btree::set::BTreeSet::iter",
    "core::option::Option::iter", "core::option::Option::into_iter", "nonempty::NonEmpty::iter",
    "futures_util::stream::iter::iter", "tracing::instrument::Instrument::instrument",
    "tracing::instrument::Instrument::in_current_span", "future_form::FutureForm::from_future", "future_form::FutureForm::ready",
    "futures_util::future::FutureExt::boxed", "futures_util::future::FutureExt::boxed_local",
    "core::iter::traits::iterator::Iterator::rev", "core::iter::traits::iterator::Iterator::skip",
    "core::iter::traits::iterator::Iterator::take", "core::iter::traits::iterator::Iterator::step_by",
    "core::iter::traits::iterator::Iterator::peekable", "core::iter::traits::iterator::Iterator::fuse",
    "core::iter::traits::iterator::Iterator::chain#self", "core::hint::must_use", "core::convert::identity",
    "alloc::collections::vec_deque::VecDeque::iter", "std::collections::hash::map::HashMap::iter",
    "alloc::collections::btree::map::BTreeMap::iter", "alloc::collections::btree::map::BTreeMap::into_iter",
    "std::collections::hash::map::HashMap::iter_mut", "alloc::vec::Vec::drain", "std::collections::hash::map::HashMap::drain",
    "alloc::collections::vec_deque::VecDeque::drain", "alloc::rcs::arc::Arc::as_ref", "core::pin::Pin::as_mut",
    "alloc::boxed::Box::into_pin", "core::ops::try_trait::Try::from_output#no",
}
# Iterator::take/skip/step_by shorten the sequence: they are identity for provenance, but checks that need "every
# element" ask `truncated(it)`.
TRUNC = {"core::iter::traits::iterator::Iterator::skip", "core::iter::traits::iterator::Iterator::take",
         "core::iter::traits::iterator::Iterator::step_by", "core::iter::traits::iterator::Iterator::skip_while",
         "core::iter::traits::iterator::Iterator::take_while"}
IDENT -= TRUNC

NEWCOLL = re.compile(r"^(std|alloc|core|futures_util|hashbrown)::.*::(new|with_capacity|default)$")
COLLTY = re.compile(r"(Vec|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap|FuturesUnordered)(::|$|<)")
PUSH = {"push", "push_back", "push_front", "insert", "push_str"}
EXT = {"extend", "append", "extend_from_slice"}
GETS = {"get", "get_mut", "remove", "pop", "pop_front", "pop_back", "first", "last", "next", "remove_entry", "get_key_value", "take",
        "peek", "front", "back", "iter_next"}


class Ctx:
    """What a check customises."""
    inline_stop = ()          # regexes of workspace functions kept opaque
    tokens = False            # collections as allocation-site tokens
    canon = {}                # path -> canonical name of an opaque call

    def on_filtered(self, sim, e, facts, fn): pass   # an element is left out by a filter

    strict = False   # filter_map and flat_map leave out elements too

    def on_short(self, sim, coll, e, fn, how): pass   # only part of the sequence is gone through

    def canon_facts(self, facts, fn): return facts   # may replace facts by facts they imply

    def keep(self, pred):     # facts kept across joins and returns
        return False

    def on_call(self, sim, st, fn, bb, path, res, args, line, mac, ta):
        """May return None (default handling) or a list of (value, facts)."""
        return None

    def on_write(self, sim, st, fn, line, base, key, val):
        pass

    looks = ()   # iterator adaptors that do not count as going through a collection
    sets = False      # a local collection is what was put into it: joined by union, and an empty one has no elements
    mutates = False   # opaque workspace functions change what they get by mutable reference

    def mut_term(self, name, old, args): return mk("mut", name, old, args)

    def on_place(self, sim, st, fn, base, key, val):
        """Like on_write, but also called for changes made by callees."""
        pass

    def owed(self, p):
        """A fact that stands for an obligation: paths that differ in it are never merged."""
        return False

    items_end = False   # the elements put into a collection one by one end when a loop over it moves on

    def walked(self, facts, coll, fn, line):
        """Further facts that hold once the loop at this place has run through `coll`."""
        return frozenset()

    def on_elem_end(self, sim, elem, facts, fn, line):
        pass

    def on_poll(self, sim, fn, st, fut):
        """Awaiting `fut`: None, or [(value, facts)]"""
        return None

    def on_token(self, sim, st, fn, what, tok, item, line):
        """A collection token is changed ('seed', 'ins', 'clear', 'remove', ...): may add to st.facts."""
        pass

    def on_store(self, sim, facts, val):
        return val

    def on_diverge(self, sim, fn, line, st):
        pass

    def opaque(self, path):
        return False


class State:
    __slots__ = ("env", "facts")

    def __init__(self, env, facts):
        self.env = env
        self.facts = facts


class Sim:
    def __init__(self, prog, ctx, max_states=24, max_steps=3_000_000, max_depth=40, iter_max=60):
        self.P = prog
        self.ctx = ctx
        self.adaptor = None
        self.max_states = max_states
        self.steps = 0
        self.entries = {}    # (function, entry of a local map) -> (place of the map, key)
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.stack = []
        self.memo = {}
        self.visited_fns = set()
        self.call_sites = 0
        self.merges = 0
        self.widen_after = 300
        self.widened = set()
        self.newtypes = set()
        self._stop = [re.compile(r) for r in ctx.inline_stop]
        self._opq = {}
        for a in prog.adts.values():
            if a["enum"] and all(not v[1] for v in a["variants"]):
                f = prog.fns.get(f"<{a['path']} as core::cmp::PartialOrd<{a['path']}>>::partial_cmp") or prog.fns.get(f"<{a['path']} as core::cmp::PartialOrd>::partial_cmp")
                if f is not None and f.derived: ENUM_ORD[a["path"]] = [v[0] for v in a["variants"]]
            if not a["enum"] and len(a["variants"]) == 1:
                fs = a["variants"][0][1]
                if len(fs) == 1 and fs[0][0] == "0":
                    self.newtypes.add(a["path"])

    # ---------- terms
    def variants(self, adt):
        if adt in VARIANTS: return VARIANTS[adt]
        a = self.P.adts.get(adt)
        if a: return [v[0] for v in a["variants"]]
        return None

    def field(self, v, own, name, variant=""):
        if own in self.newtypes:
            return v
        while True:
            if v.k == "upd":
                if v.a[1] == (own, name, variant):
                    return v.a[2]
                v = v.a[0]
                continue
            break
        if v.k == "agg":
            if v.a[0] in ("tup", "clo", "cor", "arr"):
                i = int(name)
                if i < len(v.a[3]): return v.a[3][i]
            elif v.a[0] == "adt":
                i = self.field_index(own, v.a[2], name)
                if i is not None and i < len(v.a[3]) and (not variant or variant == v.a[2]):
                    return v.a[3][i]
        if v.k == "pair":
            return v.a[int(name)] if name in ("0", "1") else mk("fld", v, own, name, variant)
        return mk("fld", v, own, name, variant)

    def field_index(self, adt, variant, name):
        a = self.P.adts.get(adt)
        if a:
            for vn, fs in a["variants"]:
                if vn == variant or not variant or len(a["variants"]) == 1:
                    for i, f in enumerate(fs):
                        if f[0] == name: return i
            return None
        if name.isdigit(): return int(name)
        return None

    def payload(self, v, adt, variant):
        return self.field(v, adt, "0", variant)

    def elem(self, c):
        return mk("elem", c)

    # ---------- places
    def read(self, fn, env, pl):
        v = env.get(pl[0])
        if v is None:
            v = mk("uninit", fn.path, pl[0])
        variant = ""
        for e in pl[1:]:
            while v.k == "mref":
                v = self.read_ref(fn, env, v)
            k = e[0]
            if k == "f":
                v = self.field(v, fn.strs[e[3]], e[2], variant)
                variant = ""
            elif k == "v":
                variant = e[2]
            elif k == "i":
                i = env.get(e[1])
                v = self.index(v, i)
            elif k in ("ci",):
                if v.k == "agg" and v.a[0] == "arr" and not e[2] and e[1] < len(v.a[3]):
                    v = v.a[3][e[1]]
                else:
                    v = mk("call", "index", (v, mk("const", str(e[1]), "usize")))
            elif k == "d":
                pass
        return v

    def index(self, v, i):
        if i is not None:
            for x in subs(i):
                if x.k == "idx" and x.a[0].k == "elem" and x.a[0].a[0] is v: return x.a[0]
        if v.k == "coll":
            if len(v.a[1]) == 1: return next(iter(v.a[1]))
        return mk("call", "index", (v, i if i is not None else mk("const", "?", "usize")))

    def read_ref(self, fn, env, r):
        v = env.get(r.a[0])
        if v is None:
            v = mk("uninit", fn.path, r.a[0])
        for key in r.a[1]:
            while v.k == "mref":
                v = self.read_ref(fn, env, v)
            if key[0] == "#i":
                v = self.index(v, key[1])
            else:
                v = self.field(v, *key)
        while v.k == "mref":
            v = self.read_ref(fn, env, v)
        return v

    def val(self, fn, env, v):
        while v.k == "mref":
            v = self.read_ref(fn, env, v)
        return v

    def resolve(self, fn, env, pl):
        """place -> (local, keys) following mutable references held in locals."""
        loc = pl[0]
        keys = []
        variant = ""
        v = env.get(loc)
        for e in pl[1:]:
            k = e[0]
            if k == "d":
                cur = self._at(fn, env, loc, keys)
                if cur is not None and cur.k == "mref":
                    loc, keys = cur.a[0], list(cur.a[1])
            elif k == "f":
                cur = self._at(fn, env, loc, keys)
                if cur is not None and cur.k == "mref":
                    loc, keys = cur.a[0], list(cur.a[1])
                own = fn.strs[e[3]]
                if own not in self.newtypes:
                    keys.append((own, e[2], variant))
                variant = ""
            elif k == "v":
                variant = e[2]
            elif k == "i":
                i = env.get(e[1])
                keys.append(("#i", i if i is not None else mk("const", "?", "usize"), ""))
        return loc, keys

    def _at(self, fn, env, loc, keys):
        v = env.get(loc)
        if v is None: return None
        for key in keys:
            v = self.val(fn, env, v)
            if key[0] == "#i":
                v = self.index(v, key[1])
            else:
                v = self.field(v, *key)
        return v

    def setpath(self, v, keys, new):
        if not keys: return new
        key = keys[0]
        if key[0] == "#i":
            inner = self.setpath(self.index(v, key[1]), keys[1:], new)
            if v.k == "coll":
                return mk("coll", v.a[0], v.a[1] | {inner})
            return mk("coll", v, frozenset({inner}))
        own, name, variant = key
        inner = self.setpath(self.field(v, own, name, variant), keys[1:], new)
        if v.k == "agg":
            i = None
            if v.a[0] in ("tup", "clo", "cor", "arr"): i = int(name)
            elif v.a[0] == "adt": i = self.field_index(own, v.a[2], name)
            if i is not None and i < len(v.a[3]):
                fs = list(v.a[3]); fs[i] = inner
                return mk("agg", v.a[0], v.a[1], v.a[2], tuple(fs))
        # drop an older override of the same field
        chain = []
        w = v
        while w.k == "upd":
            if w.a[1] != key: chain.append((w.a[1], w.a[2]))
            w = w.a[0]
        if mk("fld", w, own, name, variant) is inner:
            out = w
        else:
            chain.insert(0, (key, inner))
            out = w
        for k2, v2 in sorted(chain, key=lambda c: c[0], reverse=True):
            out = mk("upd", out, k2, v2)
        return out

    def write(self, fn, st, pl, val, line):
        loc, keys = self.resolve(fn, st.env, pl)
        self.write_at(fn, st, loc, keys, val, line)

    def write_at(self, fn, st, loc, keys, val, line):
        if not keys:
            st.env[loc] = val
            return
        if keys:
            base = self._at(fn, st.env, loc, keys[:-1])
            if base is None: base = mk("uninit", fn.path, loc)
            self.ctx.on_write(self, st, fn, line, base, keys[-1], val)
            self.ctx.on_place(self, st, fn, base, keys[-1], val)
        old = st.env.get(loc)
        if old is None: old = mk("uninit", fn.path, loc)
        st.env[loc] = self.setpath(self.val(fn, st.env, old), keys, val)

    # ---------- copying references in and out of calls
    def copy_in(self, fn, env, v, outs, path=()):
        """Replaces mutable references by the value they point at; records where to write back."""
        if v.k == "mref":
            outs.append((path, v))
            return self.val(fn, env, v)
        if v.k == "agg" and v.a[3] and self.has_mref(v):
            fs = tuple(self.copy_in(fn, env, x, outs, path + (i,)) for i, x in enumerate(v.a[3]))
            return mk("agg", v.a[0], v.a[1], v.a[2], fs)
        if v.k == "call" and self.has_mref(v):
            fs = tuple(self.copy_in(fn, env, x, outs, path + (i,)) for i, x in enumerate(v.a[1]))
            return mk("call", v.a[0], fs)
        if self.has_mref(v):
            return self.strip_mref(fn, env, v)
        return v

    def has_mref(self, v):
        return any(x.k == "mref" for x in subs(v))

    def strip_mref(self, fn, env, v):
        if v.k == "mref": return self.val(fn, env, v)
        if not self.has_mref(v): return v
        na = []
        for x in v.a:
            if isinstance(x, T): na.append(self.strip_mref(fn, env, x))
            elif isinstance(x, tuple) and any(isinstance(y, T) for y in x):
                na.append(tuple(self.strip_mref(fn, env, y) if isinstance(y, T) else y for y in x))
            elif isinstance(x, frozenset):
                na.append(frozenset(self.strip_mref(fn, env, y) for y in x))
            else: na.append(x)
        return mk(v.k, *na)

    def pick(self, v, path):
        for i in path:
            if v.k == "agg" and i < len(v.a[3]): v = v.a[3][i]
            elif v.k == "call" and i < len(v.a[1]): v = v.a[1][i]
            else: return None
        return v

    # ---------- facts
    def truth(self, facts, p):
        if p is TRUE: return True
        if p is FALSE: return False
        if p.k == "not":
            t = self.truth(facts, p.a[0])
            return None if t is None else (not t)
        if (p, True) in facts: return True
        if (p, False) in facts: return False
        if p.k == "is":
            v, name = p.a
            for q, t in facts:
                if t and q.k == "is" and q.a[0] is v and q.a[1] != name: return False
        if p.k == "or":
            xs = [self.truth(facts, x) for x in p.a]
            if any(x is True for x in xs): return True
            if all(x is False for x in xs): return False
        if p.k == "and":
            xs = [self.truth(facts, x) for x in p.a]
            if any(x is False for x in xs): return False
            if all(x is True for x in xs): return True
        if p.k == "lt":
            a, c = p.a
            if (mk_lt(c, a), True) in facts: return False
            if (mk_eq(a, c), True) in facts: return False
        if p.k == "eq":
            a, c = p.a
            if (mk_lt(a, c), True) in facts or (mk_lt(c, a), True) in facts: return False
        return None

    def assume(self, facts, p, val):
        """facts with p == val, or None if contradictory."""
        while p.k == "not":
            p = p.a[0]; val = not val
        t = self.truth(facts, p)
        if t is not None:
            return facts if t == val else None
        if p.k == "or" and not val:
            for x in p.a:
                facts = self.assume(facts, x, False)
                if facts is None: return None
            return facts
        if p.k == "and" and val:
            for x in p.a:
                facts = self.assume(facts, x, True)
                if facts is None: return None
            return facts
        if p.k == "const":
            return facts
        return facts | {(p, val)}

    def cases(self, facts, p):
        """[(facts, bool)]"""
        t = self.truth(facts, p)
        if t is not None: return [(facts, t)]
        out = []
        if p.k in ("or", "and"):
            # split into disjoint cases of the components
            todo = [(facts, 0)]
            want = p.k == "or"
            while todo:
                f, i = todo.pop()
                if i == len(p.a):
                    out.append((f, not want)); continue
                for f2, v in self.cases(f, p.a[i]):
                    if v == want: out.append((f2, want))
                    else: todo.append((f2, i + 1))
            return out
        if p.k == "not":
            return [(f, not v) for f, v in self.cases(facts, p.a[0])]
        for v in (True, False):
            f = self.assume(facts, p, v)
            if f is not None: out.append((f, v))
        return out

    def split(self, facts, v, adt):
        """[(facts, variant)] for an enum value."""
        vs = self.variants(adt)
        out = []
        for name in vs:
            p = mk_is(v, adt, name)
            t = self.truth(facts, p)
            if t is True: return [(facts, name)]
            if t is False: continue
            if all(self.truth(facts, mk_is(v, adt, o)) is False for o in vs if o != name):
                return [(facts, name)]
            f = self.assume(facts, p, True)
            if f is not None: out.append((f, name))
        return out

    def kill(self, facts, e):
        born = [p.a[0] for p, t in facts if p.k == "born" and p.a[1] is e] if self.ctx.tokens else ()
        return frozenset(x for x in facts if e not in subs(x[0]) and not any(b in subs(x[0]) for b in born))

    def alloc(self, fn, bb, st):
        """A new collection: nothing is known about it, and what becomes known ends with the iteration it was created in."""
        t = mk("token", fn.path, bb)
        f = self.kill(st.facts, t)
        return t, State(dict(st.env), f | {(mk("born", t, p.a[0]), True) for p, u in f if p.k == "iterating"})

    # ---------- liveness
    def live(self, fn):
        if fn._live is not None: return fn._live
        n = len(fn.blocks)
        borrowed = set()
        use = [set() for _ in range(n)]
        df = [set() for _ in range(n)]

        def places_rv(rv):
            k = rv[0]
            if k in ("use", "rep"): yield rv[1]
            elif k == "ref": yield ("c", rv[2])
            elif k == "cast": yield rv[1]
            elif k == "bin": yield rv[2]; yield rv[3]
            elif k == "un": yield rv[2]
            elif k == "disc": yield ("c", rv[1])
            elif k == "agg":
                for o in rv[4]: yield o
        for i, blk in enumerate(fn.blocks):
            u, dd = use[i], df[i]

            def useop(o):
                if o[0] in ("c", "m"):
                    for l in [o[1][0]] + [e[1] for e in o[1][1:] if e[0] == "i"]:
                        if l not in dd: u.add(l)
            for s in blk[0]:
                if s[0] != "a":
                    if s[0] == "sd": dd.add(s[1])
                    continue
                for o in places_rv(s[2]): useop(o)
                if s[2][0] == "ref" and s[2][1] != 2: borrowed.add(s[2][2][0])
                if len(s[1]) == 1: dd.add(s[1][0])
                else: useop(("c", s[1]))
            t = blk[1]
            if t[0] == "sw": useop(t[1])
            elif t[0] == "call":
                if t[1][0] in ("c", "m"): useop(t[1])
                for o in t[2]: useop(o)
                if len(t[3]) > 1: useop(("c", t[3]))
                else: dd.add(t[3][0]) if False else None
            elif t[0] == "assert": useop(t[1])
        live = [set() for _ in range(n)]
        changed = True
        order = list(range(n - 1, -1, -1))
        always = set(range(0, fn.argc + 1))
        while changed:
            changed = False
            for i in order:
                o = set()
                for s in fn.succ(i): o |= live[s]
                t = fn.blocks[i][1]
                if t[0] == "call" and len(t[3]) == 1: o.discard(t[3][0])
                new = use[i] | (o - df[i])
                if new != live[i]:
                    live[i] = new; changed = True
        # a borrowed local stays live while it may be reached through a reference: keep it to its StorageDead
        # (approximation: keep borrowed locals live in blocks reachable from the borrow, handled by keeping them always)
        fn._live = ([frozenset(x | always | {0}) for x in live], frozenset(borrowed))
        return fn._live

    # ---------- running
    def run(self, fn, args, facts):
        """[(ret, facts, outs)] where outs are the final values of the parameters (as seen by a caller)."""
        key = (fn.path, tuple(args), facts)
        r = self.memo.get(key)
        if r is not None: return r
        self.stack.append(fn.path)
        try:
            r = self._run(fn, args, facts)
        finally:
            self.stack.pop()
        self.memo[key] = r
        return r

    def _run(self, fn, args, facts):
        self.visited_fns.add(fn.path)
        env = {}
        for i, a in enumerate(args): env[i + 1] = a
        live, borrowed = self.live(fn)
        if fn._pred is None:
            pr = [0] * len(fn.blocks)
            for i in range(len(fn.blocks)):
                for s in fn.succ(i): pr[s] += 1
            fn._pred = pr
        seen = {}
        work = [(0, State(env, facts))]
        rets = {}
        nmerge = {}
        while work:
            bb, st = work.pop()
            if fn._pred[bb] > 1 or bb == 0:
                self.prune(fn, bb, st, live, borrowed)
                k = (frozenset((l, v) for l, v in st.env.items()), st.facts)
                s = seen.setdefault(bb, {})
                if k in s: continue
                if len(s) >= self.max_states:
                    st2 = self.merge(fn, bb, s, st)
                    self.merges += 1
                    k = (frozenset(st2.env.items()), st2.facts)
                    if k in s: continue
                    st = st2
                    nmerge[bb] = nmerge.get(bb, 0) + 1
                    if nmerge[bb] > self.widen_after:
                        # give up telling these paths apart: keep only what holds on all of them
                        st = self.merge(fn, bb, s, st, True)
                        k = (frozenset(st.env.items()), st.facts)
                        self.widened.add(fn.path)
                        if k in s: continue
                        if nmerge[bb] > 20 * self.widen_after: raise Budget(f"no fixpoint at a join in {fn.path}")
                s[k] = True
                st = State(dict(st.env), st.facts)
            for nb, nst in self.step(fn, bb, st):
                if nb == "ret":
                    ret = nst.env.get(0, UNIT)
                    ret = self.strip_mref(fn, nst.env, ret)
                    outs = tuple(self.strip_mref(fn, nst.env, nst.env.get(i + 1, args[i])) for i in range(len(args)))
                    f = self.ret_facts(nst.facts, ret, outs)
                    rets[(ret, f, outs)] = True
                else:
                    work.append((nb, nst))
        out = list(rets)
        if len(out) > 40:
            out = self.merge_rets(out)
        return out

    def ret_facts(self, facts, ret, outs):
        keep = self.ctx.keep
        facts = self.ctx.canon_facts(facts, None)
        vis = subs(ret)
        for o in outs: vis = vis | subs(o)
        r = []
        for p, t in facts:
            if keep(p): r.append((p, t)); continue
            if p.k == "is" and p.a[0] in vis: r.append((p, t))
            elif p.k in ("iterating", "born"): r.append((p, t))
        return frozenset(r)

    def merge_rets(self, outs):
        by = {}
        for ret, f, o in outs:
            kf = frozenset(x for x in f if self.ctx.keep(x[0]))
            head = (ret.a[2] if ret.k == "agg" and ret.a[0] == "adt" else ret.k)
            k = (kf, head)
            if k not in by: by[k] = (ret, f, o)
            else:
                r0, f0, o0 = by[k]
                if r0 is not ret:
                    if head in ("Ok", "Err", "Some") and r0.k == "agg" and len(r0.a[3]) == 1 and len(ret.a[3]) == 1:
                        r0 = mk("agg", "adt", r0.a[1], head, (self.join(r0.a[3][0], ret.a[3][0]),))
                    else:
                        r0 = self.join(r0, ret)
                by[k] = (r0, f0 & f, tuple(self.join(x, y) for x, y in zip(o0, o)))
        return list(by.values())

    def same_roots(self, u):
        """Alternatives that are one value with different fields replaced become one alternative with alternatives in those fields."""
        by = {}
        for v in u:
            w = v
            while w.k == "upd": w = w.a[0]
            by.setdefault(w, []).append(v)
        out = set()
        for w, vs in by.items():
            if len(vs) == 1: out.add(vs[0]); continue
            fs = []
            for v in vs:
                d = {}
                while v.k == "upd":
                    d.setdefault(v.a[1], v.a[2])
                    v = v.a[0]
                fs.append(d)
            r = w
            for k in sorted({k for d in fs for k in d}, reverse=True):
                j = None
                for d in fs:
                    x = d[k] if k in d else mk("fld", w, *k)
                    j = x if j is None else self.join(j, x)
                r = mk("upd", r, k, j)
            out.add(r)
        return frozenset(out)

    def join(self, x, y):
        if x is y: return x
        xs = x.a[0] if x.k == "phi" else frozenset({x})
        ys = y.a[0] if y.k == "phi" else frozenset({y})
        u = self.same_roots(xs | ys)
        if self.ctx.sets and len(u) > 1 and all(v.k == "coll" and v.a[0] is None for v in u):
            return mk("coll", None, frozenset().union(*(v.a[1] for v in u)))
        if self.ctx.sets and len(u) > 1 and all(v.k == "call" and len(v.a[1]) == 1 and v.a[0] == next(iter(u)).a[0] for v in u):
            r = None
            for v in sorted(u, key=lambda t: t.n): r = v.a[1][0] if r is None else self.join(r, v.a[1][0])
            if r.k == "coll": return mk("call", next(iter(u)).a[0], (r,))
        if len(u) == 1: return next(iter(u))
        if len(u) > 12:
            hs = {(v.a[0], v.a[1], v.a[2], len(v.a[3])) if v.k == "agg" and v.a[0] == "adt" else None for v in u}
            if len(hs) == 1 and None not in hs:
                h = hs.pop()
                return mk("agg", *h[:3], tuple(mk("phi", frozenset()) for _ in range(h[3])))
            return mk("phi", frozenset())
        return mk("phi", u)

    def prune(self, fn, bb, st, live, borrowed):
        lv = live[bb]
        for l in list(st.env):
            if l not in lv and l not in borrowed:
                del st.env[l]
        # keep borrowed locals only if some live value references them
        need = set()
        todo = [v for l, v in st.env.items() if l in lv]
        seenl = set(l for l in st.env if l in lv)
        while todo:
            v = todo.pop()
            for x in subs(v):
                if x.k == "mref" and x.a[0] not in seenl:
                    seenl.add(x.a[0])
                    if x.a[0] in st.env: todo.append(st.env[x.a[0]])
        for l in list(st.env):
            if l not in seenl: del st.env[l]
        vis = set()
        for v in st.env.values(): vis |= subs(v)
        keep = self.ctx.keep
        st.facts = frozenset((p, t) for p, t in self.ctx.canon_facts(st.facts, fn)
                             if keep(p) or p.k in ("iterating", "born") or (any(x in vis for x in kids(p)) and p.k in ("is", "eq", "lt", "call", "truthy")))

    def merge(self, fn, bb, seen, st, hard=False):
        """Joins st with the seen states that agree on the kept facts."""
        keep = self.ctx.keep
        q = frozenset(x for x in st.facts if keep(x[0]))
        env = dict(st.env)
        facts = st.facts
        def head(v):
            if v is not None and v.k == "phi" and v.a[0]:
                hs = {head(x) for x in v.a[0]}
                return hs.pop() if len(hs) == 1 else None
            return v.a[2] if v is not None and v.k == "agg" and v.a[0] == "adt" and v.a[1] in (RES, OPT) else None
        h = head(env.get(0))
        owed = frozenset(x for x in st.facts if self.ctx.owed(x[0]))
        for (e2, f2) in list(seen):
            if h and head(dict(e2).get(0)) not in (None, h): continue   # keep success and failure apart
            if not hard and frozenset(x for x in f2 if keep(x[0])) != q: continue
            if hard and frozenset(x for x in f2 if self.ctx.owed(x[0])) != owed: continue
            d2 = dict(e2)
            for l in list(env):
                if l not in d2: continue
                env[l] = self.join(env[l], d2[l])
            facts = facts & f2
        return State(env, facts)

    def step(self, fn, bb, st):
        self.steps += 1
        if self.steps % 1000 == 0 and time.time() - START > 780: raise Budget(f"more than 780 s (in {' > '.join(self.stack[-4:])})")
        if self.steps > self.max_steps: raise Budget(f"more than {self.max_steps} abstract steps (in {' > '.join(self.stack[-4:])})")
        blk = fn.blocks[bb]
        for s in blk[0]:
            if s[0] == "a":
                v = self.rvalue(fn, st, s[2], s[3], bb)
                rv = s[2]
                if self.ctx.mutates and rv[0] == "use" and rv[1][0] in ("c", "m") and v.k != "mref" and len(s[1]) == 1 and \
                        fn.locals[s[1][0]].startswith("&mut") and len(rv[1][1]) >= 1:
                    # a moved mutable reference still refers to the place it was copied in from
                    loc, keys = self.resolve(fn, st.env, rv[1][1])
                    if loc != s[1][0]: v = mk("mref", loc, tuple(keys))
                self.write(fn, st, s[1], v, s[3])
            elif s[0] == "sd":
                pass
        t = blk[1]
        k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "drop": return [(t[2], st)]
        if k == "assert": return [(t[3], st)]
        if k == "ret": return [("ret", st)]
        if k == "sw": return self.switch(fn, st, t)
        if k == "call": return self.call(fn, bb, st, t)
        return []

    def switch(self, fn, st, t):
        v = self.operand(fn, st, t[1])
        v = self.val(fn, st.env, v)
        out = []
        if v.k == "disc":
            x, adt = v.a
            vs = self.variants(adt)
            if vs is None:
                # unknown enum: keep branch facts by number
                for val, tgt in t[2]:
                    f = self.assume(st.facts, mk("is", x, "#" + val), True)
                    if f is not None: out.append((tgt, State(dict(st.env), f)))
                out.append((t[3], State(dict(st.env), st.facts)))
                return out
            tg = {}
            for val, tgt in t[2]:
                iv = int(val)
                if adt == ORD: name = {255: "Less", 0: "Equal", 1: "Greater"}.get(iv, None)
                else: name = vs[iv] if iv < len(vs) else None
                tg[name] = tgt
            for f, name in self.split(st.facts, x, adt):
                if adt == ORD and x.k == "cmp":
                    a, c = x.a
                    if name == "Less": f = self.assume(f, mk_lt(a, c), True)
                    elif name == "Greater": f = self.assume(f, mk_lt(c, a), True)
                    else: f = self.assume(f, mk_eq(a, c), True)
                    if f is None: continue
                out.append((tg.get(name, t[3]), State(dict(st.env), f)))
            return out
        if t[4]:  # bool
            tgt = {val: x for val, x in t[2]}
            f0 = tgt.get("0", t[3]); f1 = tgt.get("1", t[3])
            if v.k == "phi" and v.a[0] and all(x in (TRUE, FALSE) for x in v.a[0]):
                return [(f0, State(dict(st.env), st.facts)), (f1, State(dict(st.env), st.facts))]
            for f, val in self.cases(st.facts, v):
                out.append((f1 if val else f0, State(dict(st.env), f)))
            return out
        if v.k == "const":
            for val, x in t[2]:
                if val == v.a[0]: return [(x, st)]
            return [(t[3], st)]
        for val, x in t[2]:
            f = self.assume(st.facts, mk_eq(v, mk("const", val, "int")), True)
            if f is not None: out.append((x, State(dict(st.env), f)))
        f = st.facts
        for val, x in t[2]:
            f = self.assume(f, mk_eq(v, mk("const", val, "int")), False)
            if f is None: break
        if f is not None: out.append((t[3], State(dict(st.env), f)))
        return out

    def operand(self, fn, st, o):
        k = o[0]
        if k in ("c", "m"): return self.read(fn, st.env, o[1])
        if k == "k": return mk("const", o[1], fn.strs[o[2]] if isinstance(o[2], int) else "")
        if k == "kn":
            if o[3] is not None: return mk("const", o[3], fn.strs[o[2]])
            return mk("named", fn.strs[o[1]])
        if k == "ks": return mk("const", o[1], fn.strs[o[2]])
        if k == "fn":
            r = o[1]
            return mk("fnitem", fn.strs[r.get("res", r["fn"])], fn.strs[r["fn"]])
        return mk("?")

    def rvalue(self, fn, st, rv, line, bb):
        k = rv[0]
        if k == "use": return self.operand(fn, st, rv[1])
        if k == "ref":
            if rv[1] == 1:
                loc, keys = self.resolve(fn, st.env, rv[2])
                cur = self._at(fn, st.env, loc, keys)
                if cur is not None and cur.k == "mref": return cur
                return mk("mref", loc, tuple(keys))
            return self.read(fn, st.env, rv[2])
        if k == "agg":
            ops = tuple(self.operand(fn, st, o) for o in rv[4])
            kind = rv[1]
            if kind == "adt":
                path = fn.strs[rv[2]]
                if path in self.newtypes and len(ops) == 1: return ops[0]
                enum = path in VARIANTS or (path in self.P.adts and self.P.adts[path]["enum"])
                return mk("agg", "adt", path, rv[3] if (enum or path not in self.P.adts) else "", ops)
            return mk("agg", kind, fn.strs[rv[2]] if kind in ("clo", "cor") else "", "", ops)
        if k == "disc":
            v = self.val(fn, st.env, self.read(fn, st.env, rv[1]))
            return mk("disc", v, fn.strs[rv[2]])
        if k == "cast":
            return self.operand(fn, st, rv[1])
        if k == "bin":
            a = self.val(fn, st.env, self.operand(fn, st, rv[2]))
            c = self.val(fn, st.env, self.operand(fn, st, rv[3]))
            o = rv[1]
            if a.k == "disc" and c.k == "disc" and o in ("Eq", "Ne"):
                e = mk_eq(a.a[0], c.a[0])
                return e if o == "Eq" else neg(e)
            if o == "Eq": return mk_eq(a, c)
            if o == "Ne": return neg(mk_eq(a, c))
            if o == "Lt": return mk_lt(a, c)
            if o == "Gt": return mk_lt(c, a)
            if o == "Le": return neg(mk_lt(c, a))
            if o == "Ge": return neg(mk_lt(a, c))
            if o == "BitAnd" and (a in (TRUE, FALSE) or c in (TRUE, FALSE) or self.isbool(a)):
                return self.mk_and(a, c)
            if o == "BitOr" and (a in (TRUE, FALSE) or c in (TRUE, FALSE) or self.isbool(a)):
                return self.mk_or(a, c)
            if o.endswith("WithOverflow"):
                return mk("agg", "tup", "", "", (self.bounded(mk("bin", o[:-12], a, c), fn, bb), FALSE))
            return self.bounded(mk("bin", o, a, c), fn, bb)
        if k == "un":
            a = self.val(fn, st.env, self.operand(fn, st, rv[2]))
            if rv[1] == "Not": return neg(a)
            return mk("un", rv[1], a)
        if k == "rep":
            return mk("rep", self.operand(fn, st, rv[1]))
        return mk("?", fn.path, bb)

    def isbool(self, a):
        return a.k in ("eq", "lt", "is", "not", "and", "or") or (a.k == "const" and a.a[1] == "bool")

    def mk_and(self, a, c):
        if a is FALSE or c is FALSE: return FALSE
        if a is TRUE: return c
        if c is TRUE: return a
        return mk("and", a, c)

    def mk_or(self, a, c):
        if a is TRUE or c is TRUE: return TRUE
        if a is FALSE: return c
        if c is FALSE: return a
        return mk("or", a, c)

    def bounded(self, t, fn, bb):
        if t.d > 24: return mk("deep", fn.path, bb)
        return t

    # ---------- calls
    def call(self, fn, bb, st, t):
        self.call_sites += 1
        f = t[1]
        line, mac = t[5], t[6]
        target = t[4]
        ops = t[2]
        raw = [self.operand(fn, st, o) for o in ops]
        dest = t[3]
        c = self.P.callee(fn, f)
        if c is None:
            fv = self.val(fn, st.env, self.operand(fn, st, f))
            if fv.k == "fnitem":
                c = (fv.a[1], fv.a[0], None, [])
            else:
                c = ("<indirect>", "<indirect>", None, [])
        path, res, tr, ta = c
        results = self.dispatch(fn, bb, st, path, res, tr, ta, raw, line, mac)
        out = []
        if target < 0:
            self.ctx.on_diverge(self, fn, line, st)
            return []
        for ret, s2 in results:
            if ret is NEVER: continue
            if s2 is st and len(results) > 1: s2 = State(dict(st.env), st.facts)
            ret = self.bounded(ret, fn, bb)
            self.write(fn, s2, dest, ret, line)
            out.append((target, s2))
        return out

    def dispatch(self, fn, bb, st, path, res, tr, ta, raw, line, mac):
        """[(ret, State)]"""
        vals = [self.val(fn, st.env, v) for v in raw]
        self.raw = raw      # the arguments with places instead of what is in them, for on_call
        h = self.ctx.on_call(self, st, fn, bb, path, res, vals, line, mac, ta)
        if h is not None:
            return [(v, State(dict(st.env), f)) for v, f in h]
        r = self.builtin(fn, bb, st, path, res, ta, raw, vals, line)
        if r is not None: return r
        canon = self.ctx.canon.get(res) or self.ctx.canon.get(path)
        if canon:
            return [(mk("call", canon, tuple(self.strip_mref(fn, st.env, v) for v in vals)), st)]
        body = self.body_of(path, res, ta)
        if body is not None and not self.stopped(body.path):
            return self.inline(fn, st, body, raw)
        return self.extern(fn, bb, st, path, res, raw, vals, line, ta)

    def stopped(self, p):
        r = self._opq.get(p)
        if r is None:
            r = any(x.search(p) for x in self._stop) or self.ctx.opaque(p)
            self._opq[p] = r
        return r

    def body_of(self, path, res, ta):
        b_ = self.P.fns.get(res)
        if b_ is not None:
            if self.opaque_impl(b_): return None
            return b_
        if path == "core::convert::Into::into" and len(ta) == 2:
            b_ = self.P.fns.get(f"<{ta[1]} as core::convert::From<{ta[0]}>>::from")
            if b_ is not None: return b_
        if path == "core::convert::TryInto::try_into" and len(ta) == 2:
            b_ = self.P.fns.get(f"<{ta[1]} as core::convert::TryFrom<{ta[0]}>>::try_from")
            if b_ is not None: return b_
        if path in self.P.fns:
            b_ = self.P.fns[path]  # provided trait method
            if not self.opaque_impl(b_): return b_
        return None

    def opaque_impl(self, b_):
        ti = b_.trait_item or ""
        if OPQ_TRAITS.match(ti): return b_.derived or ti.startswith("core::fmt") or ti.startswith("core::hash")
        return False

    def inline(self, fn, st, body, raw):
        """Virtual inlining with copy-in/copy-out of mutable references."""
        if self.stack.count(body.path) >= 1 + self.ctx_rec() or len(self.stack) > self.max_depth:
            vals = [self.strip_mref(fn, st.env, self.val(fn, st.env, v)) for v in raw]
            return self.havoc(fn, st, raw, mk("call", body.path, tuple(vals)))
        if body.is_async:
            # the body only packs its arguments into the future: keep references as they are
            ag = self.async_agg(body, raw)
            if ag is not None: return [(ag, st)]
        outs = []
        args = []
        for i, v in enumerate(raw):
            args.append(self.copy_in(fn, st.env, v, outs, (i,)))
        res = []
        for ret, facts, oargs in self.run(body, args, st.facts):
            s2 = State(dict(st.env), facts)
            self.copy_out(fn, s2, outs, oargs)
            res.append((ret, s2))
        return res

    def ctx_rec(self):
        return getattr(self.ctx, "recursion", 0)

    def copy_out(self, fn, s2, outs, oargs):
        for p, ref in outs:
            v = self.pick_args(oargs, p)
            if v is not None:
                old = self.val(fn, s2.env, ref)
                if old is not v:
                    self.write_at_raw(fn, s2, ref.a[0], list(ref.a[1]), v)

    def write_at_raw(self, fn, st, loc, keys, v):
        if keys:
            base = self._at(fn, st.env, loc, keys[:-1])
            if base is not None: self.ctx.on_place(self, st, fn, base, keys[-1], v)
        old = st.env.get(loc)
        if old is None: old = mk("uninit", fn.path, loc)
        st.env[loc] = v if not keys else self.setpath(self.val(fn, st.env, old), keys, v)

    def pick_args(self, oargs, p):
        if p[0] >= len(oargs): return None
        return self.pick(oargs[p[0]], p[1:])

    def async_agg(self, body, raw):
        for blk in body.blocks:
            for s in blk[0]:
                if s[0] == "a" and s[1] == [0] and s[2][0] == "agg" and s[2][1] == "cor":
                    ups = []
                    for o in s[2][4]:
                        # operands are locals holding the parameters (possibly through a move)
                        l = o[1][0] if o[0] in ("c", "m") else None
                        i = self.param_of(body, l)
                        if i is None: return None
                        ups.append(raw[i])
                    return mk("agg", "cor", body.strs[s[2][2]], "", tuple(ups))
        return None

    def param_of(self, body, l):
        seen = set()
        while l is not None and l not in seen:
            seen.add(l)
            if 1 <= l <= body.argc: return l - 1
            nxt = None
            for blk in body.blocks:
                for s in blk[0]:
                    if s[0] == "a" and s[1] == [l] and s[2][0] == "use" and s[2][1][0] in ("c", "m") and len(s[2][1][1]) == 1:
                        nxt = s[2][1][1][0]
            l = nxt
        return None

    def havoc(self, fn, st, raw, ret):
        return [(ret, st)]

    def closure_of(self, v):
        return v if v.k == "agg" and v.a[0] in ("clo", "cor") else None

    def call_closure(self, fn, st, clo, args, write_back=None):
        """Runs a closure value (or fn item) on argument values: [(ret, State)]."""
        cv = self.val(fn, st.env, clo)
        if cv.k == "fnitem":
            p = cv.a[0]
            m = re.match(r"^(.*)::\{ctor\}$", p)
            if m:
                return [(self.ctor(m.group(1), args), st)]
            return self.dispatch(fn, -1, st, cv.a[1], cv.a[0], None, [], list(args), 0, "")
        if cv.k != "agg" or cv.a[0] != "clo":
            return [(mk("call", "callfn", (self.strip_mref(fn, st.env, cv),) + tuple(self.strip_mref(fn, st.env, a) for a in args)), st)]
        body = self.P.fns.get(cv.a[1])
        if body is None:
            return [(mk("call", cv.a[1], tuple(self.strip_mref(fn, st.env, a) for a in args)), st)]
        if self.stack.count(body.path) >= 1 + self.ctx_rec() or len(self.stack) > self.max_depth:
            return [(mk("call", body.path, tuple(self.strip_mref(fn, st.env, a) for a in args)), st)]
        outs = []
        cin = self.copy_in(fn, st.env, cv, outs, (0,))
        ain = [self.copy_in(fn, st.env, a, outs, (i + 1,)) for i, a in enumerate(args)]
        res = []
        cargs = [cin] + ain[: max(0, body.argc - 1)]
        while len(cargs) < body.argc: cargs.append(mk("?", body.path, len(cargs)))
        for ret, facts, oargs in self.run(body, cargs, st.facts):
            s2 = State(dict(st.env), facts)
            self.copy_out(fn, s2, outs, oargs)
            if clo.k == "mref" and oargs[0] is not cin and not outs:
                self.write_at_raw(fn, s2, clo.a[0], list(clo.a[1]), oargs[0])
            res.append((ret, s2))
        return res

    def ctor(self, p, args):
        # p is 'path::Adt' or 'path::Adt::Variant'
        if p in self.newtypes and len(args) == 1: return args[0]
        if p in self.P.adts: return mk("agg", "adt", p, "", tuple(args))
        adt, _, var = p.rpartition("::")
        if adt in ("core::option::Option",): return mk("agg", "adt", OPT, var, tuple(args))
        if adt in ("core::result::Result",): return mk("agg", "adt", RES, var, tuple(args))
        return mk("agg", "adt", adt, var, tuple(args))

    def poll(self, fn, st, fut_raw):
        """Awaits a future value: [(value, State)]"""
        v = self.val(fn, st.env, fut_raw)
        h = self.ctx.on_poll(self, fn, st, self.strip_mref(fn, st.env, v))
        if h is not None: return [(r, State(dict(st.env), f)) for r, f in h]
        if v.k == "agg" and v.a[0] == "cor":
            body = self.P.fns.get(v.a[1])
            if body is not None and not self.stopped(body.path):
                if self.stack.count(body.path) >= 1 + self.ctx_rec() or len(self.stack) > self.max_depth:
                    return [(mk("call", body.path, tuple(self.strip_mref(fn, st.env, x) for x in v.a[3])), st)]
                outs = []
                cin = self.copy_in(fn, st.env, v, outs, (0,))
                res = []
                for ret, facts, oargs in self.run(body, [cin, mk("const", "cx", "")], st.facts):
                    s2 = State(dict(st.env), facts)
                    self.copy_out(fn, s2, outs, oargs)
                    res.append((ret, s2))
                return res
            return [(mk("call", v.a[1], tuple(self.strip_mref(fn, st.env, x) for x in v.a[3])), st)]
        if v.k == "call" and v.a[0] in ("futures_util::lock::mutex::Mutex::lock", "join_all"):
            return [(v.a[1][0], st)]
        if v.k == "phi" and v.a[0]:
            r = []
            for x in v.a[0]: r += self.poll(fn, State(dict(st.env), st.facts), x)
            return r
        if v.k == "call":
            return [(mk("call", v.a[0] + ".await" if not v.a[0].startswith("keyhive") and not v.a[0].startswith("beekem") and not v.a[0].startswith("<") else v.a[0], v.a[1]), st)]
        if v.k == "agg" and v.a[0] == "adt":
            return [(v, st)]  # a value passed through an identity (FutureForm::ready)
        return [(v, st)]

    # iteration: elements of an iterator value
    def elems(self, fn, st, it):
        """[(elem, State)] for one arbitrary element of `it` (closures of adaptors are run)."""
        it = self.val(fn, st.env, it)
        if it.k == "call":
            p, a = it.a[0], it.a[1]
            n = p.rsplit("::", 1)[-1]
            if p.startswith("core::iter") or p.startswith("nonempty") or p.startswith("[T]") or p.startswith("alloc::") or p.startswith("std::"):
                if n == "map" and len(a) == 2:
                    return [r for e, s in self.elems(fn, st, a[0]) for r in self.call_closure(fn, s, a[1], [e])]
                if n == "filter" and len(a) == 2:
                    out = []
                    for e, s in self.elems(fn, st, a[0]):
                        for r, s2 in self.call_closure(fn, s, a[1], [e]):
                            for f, val in self.cases(s2.facts, self.val(fn, s2.env, r)):
                                if val: out.append((e, State(dict(s2.env), f)))
                                else: self.ctx.on_filtered(self, e, f, fn)
                    return out
                if n in ("filter_map", "find_map") and len(a) == 2:
                    out = []
                    for e, s in self.elems(fn, st, a[0]):
                        for r, s2 in self.call_closure(fn, s, a[1], [e]):
                            for f, name in self.split(s2.facts, r, OPT):
                                if name == "Some": out.append((self.payload(r, OPT, "Some"), State(dict(s2.env), f)))
                                elif self.ctx.strict: self.ctx.on_filtered(self, e, f, fn)
                    return out
                if n in ("flat_map",) and len(a) == 2:
                    out = []
                    for e, s in self.elems(fn, st, a[0]):
                        for r, s2 in self.call_closure(fn, s, a[1], [e]):
                            out += self.elems(fn, s2, r)
                            if self.ctx.strict and r.k == "agg" and r.a[1] == OPT and r.a[2] == "None": self.ctx.on_filtered(self, e, s2.facts, fn)
                    return out
                if n == "flatten" and len(a) == 1:
                    out = []
                    for e, s in self.elems(fn, st, a[0]):
                        out += self.elems(fn, s, e)
                    return out
                if n == "zip" and len(a) == 2:
                    return [(mk("agg", "tup", "", "", (x, y)), s2) for x, s in self.elems(fn, st, a[0]) for y, s2 in self.elems(fn, s, a[1])]
                if n == "chain" and len(a) == 2:
                    r = []
                    for x in a: r += self.elems(fn, State(dict(st.env), st.facts), x)
                    return r
                if n == "once" and len(a) == 1: return [(a[0], st)]
                if n == "empty": return []
                if n == "enumerate":
                    return [(mk("agg", "tup", "", "", (mk("idx", it), e)), s) for e, s in self.elems(fn, st, a[0])]
                if n in ("inspect", "take", "skip", "step_by", "take_while", "skip_while", "sorted", "rev", "map_while") and a:
                    r = self.elems(fn, st, a[0])
                    if n in ("take", "skip", "step_by", "take_while", "skip_while", "map_while"):
                        for e, _ in r: self.ctx.on_short(self, a[0], e, fn, n)
                    return r
                if n in ("values", "into_values", "values_mut"):
                    return [(mk("val", a[0]), st)] if a[0].k != "coll" else [(self.field(x, "tuple", "1"), st) for x in a[0].a[1]] or ([] if self.ctx.sets and a[0].a[0] is None else [(mk("val", a[0]), st)])
                if n in ("keys", "into_keys"):
                    return [(mk("key", a[0]), st)] if a[0].k != "coll" else [(self.field(x, "tuple", "0"), st) for x in a[0].a[1]] or ([] if self.ctx.sets and a[0].a[0] is None else [(mk("key", a[0]), st)])
        if it.k == "coll":
            r = [(x, State(dict(st.env), st.facts)) for x in it.a[1]]
            if it.a[0] is not None and isinstance(it.a[0], T):
                r += [(self.elem(it.a[0]), State(dict(st.env), st.facts))]
            return r
        if it.k == "agg" and it.a[0] == "arr":
            return [(x, State(dict(st.env), st.facts)) for x in it.a[3]]
        r_ = self.index_range(it)
        if r_ is not None:
            return [(mk("idx", e), s) for e, s in self.elems(fn, st, r_[0])]
        if it.k == "agg" and it.a[0] == "adt" and it.a[1] == OPT:
            return [(it.a[3][0], st)] if it.a[2] == "Some" else []
        if it.k == "phi" and it.a[0]:
            r = []
            for x in it.a[0]: r += self.elems(fn, State(dict(st.env), st.facts), x)
            return r
        return [(self.elem(it), st)]

    def index_range(self, it):
        """lo..xs.len() -> (xs, whether it starts at 0)"""
        if it.k == "agg" and it.a[0] == "adt" and it.a[1] == "core::ops::range::Range" and len(it.a[3]) == 2:
            lo, hi = it.a[3]
            if hi.k == "call" and hi.a[0].rsplit("::", 1)[-1] == "len" and len(hi.a[1]) == 1:
                return hi.a[1][0], lo.k == "const" and lo.a[0].split("_")[0] == "0"
        return None

    def begin_elem(self, fn, facts, e, line):
        """A new element: previous one (if any) ends."""
        key = mk("iterating", e)
        if (key, True) in facts:
            self.ctx.on_elem_end(self, e, facts, fn, line)
        if e.k in ("elem", "key", "val") :
            facts = self.kill(facts, e)
        elif e.k == "agg" and e.a[0] == "tup":
            for x in e.a[3]:
                if x.k in ("elem", "key", "val"): facts = self.kill(facts, x)
        return facts | {(key, True)}

    def end_elems(self, fn, facts, line, cands):
        for e in cands:
            key = mk("iterating", e)
            if (key, True) in facts:
                self.ctx.on_elem_end(self, e, facts, fn, line)
                facts = facts - {(key, True)}
        return facts

    def next_(self, fn, st, it, line):
        """Iterator::next: [(Option, State)]"""
        outs = []
        # which elements may be in progress: those already marked that come from this iterator
        itv = self.val(fn, st.env, it)
        active = [p.a[0] for p, t in st.facts if p.k == "iterating" and p.a[0] is not itv and (itv in subs(p.a[0]) or self.same_source(itv, p.a[0]))]
        f0 = st.facts
        if self.ctx.items_end:
            got = {x for y in self.sources(itv) if y.k == "coll" or y.k == "call" and y.a[0].endswith("::once") for x in y.a[1]}
            if self.ctx.sets: got |= {z for x in got if x.k == "agg" and x.a[0] == "tup" for z in x.a[3]}
            active += [p.a[0] for p, t in st.facts if p.k == "iterating" and p.a[0] in got and p.a[0] not in active]
        for e in active:
            self.ctx.on_elem_end(self, e, f0, fn, line)
        for e in active:
            f0 = f0 - {(mk("iterating", e), True)}
        fkill = f0
        outs.append((NONE, State(dict(st.env), f0 | {(self.exh(fn, st, itv), True)} | self.ctx.walked(f0, self.exh(fn, st, itv).a[0], fn, line))))
        for e in active:
            if e.k in ("elem", "key", "val"): fkill = self.kill(fkill, e)
            else:
                for x in subs(e):
                    if x.k in ("elem", "key", "val"): fkill = self.kill(fkill, x)
        for e, s in self.elems(fn, State(dict(st.env), fkill), itv):
            outs.append((some(e), State(s.env, s.facts | {(mk("iterating", e), True)})))
        return outs

    def exh(self, fn, st, it):
        """Marker: the sequence `it` has been walked to its end."""
        v = self.strip_mref(fn, st.env, self.val(fn, st.env, it))
        r = self.index_range(v)
        if r is not None: v = r[0] if r[1] else mk("call", "skip", (r[0], mk("const", "?", "usize")))
        return mk("exhausted", v)

    def sources(self, it):
        """Subterms of an iterator value that it runs over (not what its source was reached through)."""
        out, todo = [], [it]
        while todo:
            x = todo.pop()
            out.append(x)
            if x.k in ("elem", "key", "val"): continue
            if x.k == "call" and x.a[0].rsplit("::", 1)[-1] in ("get", "get_mut", "remove", "index", "entry") and x.a[1]:
                continue
            todo.extend(kids(x))
        return out

    def same_source(self, it, e):
        src = None
        for x in subs(e):
            if x.k not in ("elem", "key", "val"): continue
            if src is None: src = self.sources(it)
            if any(x.a[0] is y for y in src): return True
            r = self.index_range(it)
            if r and r[0] is x.a[0]: return True
        return False

    def consume(self, fn, st, it, line, body):
        """0 or 1 representative iterations: body(elem, State) -> [(tag/value, State)]. Returns list of (None|value, State)."""
        ex = self.exh(fn, st, it)
        out = [(None, State(dict(st.env), st.facts | {(ex, True)}))]
        for e, s in self.elems(fn, State(dict(st.env), st.facts), it):
            s = State(s.env, s.facts | {(mk("iterating", e), True)})
            for v, s2 in body(e, s):
                f = s2.facts
                out.append((v, State(s2.env, f), e))
        return out

    # ---------- models of std functions
    def builtin(self, fn, bb, st, path, res, ta, raw, vals, line):
        n = path.rsplit("::", 1)[-1]
        if path in IDENT and not (path == "core::clone::Clone::clone" and False):
            if res in self.P.fns and not self.opaque_impl(self.P.fns[res]) and path not in (
                    "core::clone::Clone::clone", "dupe::Dupe::dupe"):
                body = self.P.fns[res]
                if path in ("core::iter::traits::collect::IntoIterator::into_iter",): return self.inline(fn, st, body, raw)
                if body.argc == 1: return self.inline(fn, st, body, raw)
            v = raw[0]
            return [(v, st)]
        if path.startswith("tracing") or (path.startswith("core::cmp::PartialOrd") and ta and "tracing_core" in ta[0]):
            if n in ("is_disabled", "is_never"): return [(TRUE, st)]
            if n in ("le", "__is_enabled", "lt", "enabled"): return [(FALSE, st)]
            if n == "in_scope":
                return self.call_closure(fn, st, raw[-1], [])
            return [(mk("named", path), st)]
        if path == "core::future::future::Future::poll":
            return [(ready(v), s) for v, s in self.poll(fn, st, raw[0])]
        if path == "core::future::get_context": return [(mk("const", "cx", ""), st)]
        if path == "core::ops::try_trait::Try::branch":
            v = vals[0]
            t = ta[0] if ta else ""
            if t.startswith(OPT):
                out = []
                for f, name in self.split(st.facts, v, OPT):
                    s = State(dict(st.env), f)
                    if name == "Some": out.append((mk("agg", "adt", CF, "Continue", (self.payload(v, OPT, "Some"),)), s))
                    else: out.append((mk("agg", "adt", CF, "Break", (NONE,)), s))
                return out
            if t.startswith(RES):
                out = []
                for f, name in self.split(st.facts, v, RES):
                    s = State(dict(st.env), f)
                    if name == "Ok": out.append((mk("agg", "adt", CF, "Continue", (self.payload(v, RES, "Ok"),)), s))
                    else: out.append((mk("agg", "adt", CF, "Break", (err(self.payload(v, RES, "Err")),)), s))
                return out
            return None
        if path == "core::ops::try_trait::FromResidual::from_residual":
            v = vals[0]
            if ta and ta[0].startswith(OPT): return [(NONE, st)]
            if v.k == "agg" and v.a[1] == RES: return [(err(mk("call", "from", (v.a[3][0],))), st)]
            if v is NONE: return [(NONE, st)]
            return [(err(mk("call", "from", (v,))), st)]
        if path == "core::ops::try_trait::Try::from_output":
            if ta and ta[0].startswith(OPT): return [(some(vals[0]), st)]
            return [(ok(vals[0]), st)]
        if path.startswith("core::cmp::Partial") or path.startswith("core::cmp::Ord::") or path.startswith("core::cmp::Eq"):
            if n in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "max", "min"):
                # user-written comparison impls are left opaque except through their canonical predicate
                a, c = [self.strip_mref(fn, st.env, x) for x in vals[:2]]
                if n == "eq": return [(mk_eq(a, c), st)]
                if n == "ne": return [(neg(mk_eq(a, c)), st)]
                if n == "lt": return [(mk_lt(a, c), st)]
                if n == "gt": return [(mk_lt(c, a), st)]
                if n == "le": return [(neg(mk_lt(c, a)), st)]
                if n == "ge": return [(neg(mk_lt(a, c)), st)]
                if n == "cmp": return [(mk("cmp", a, c), st)]
                if n == "partial_cmp": return [(some(mk("cmp", a, c)), st)]
                if n in ("max", "min"):
                    x, y = (a, c) if a.n < c.n else (c, a)
                    return [(x if x is y else mk(n, x, y), st)]
        if path in ("core::cmp::max", "core::cmp::min"):
            a, c = vals[:2]
            x, y = (a, c) if a.n < c.n else (c, a)
            return [(x if x is y else mk(n, x, y), st)]
        if path.startswith("core::cmp::Ordering::"):
            v = vals[0]
            if v.k == "cmp":
                a, c = v.a
                m = {"is_lt": mk_lt(a, c), "is_gt": mk_lt(c, a), "is_le": neg(mk_lt(c, a)), "is_ge": neg(mk_lt(a, c)),
                     "is_eq": mk_eq(a, c), "is_ne": neg(mk_eq(a, c))}.get(n)
                if m is not None: return [(m, st)]
        if path.startswith(OPT + "::") or path.startswith(RES + "::"):
            return self.optres(fn, bb, st, path, n, raw, vals, line)
        if path == "core::bool::then" or path.endswith("bool::then_some") or path in ("bool::then", "bool::then_some"):
            out = []
            for f, val in self.cases(st.facts, vals[0]):
                s = State(dict(st.env), f)
                if not val: out.append((NONE, s))
                elif n == "then_some": out.append((some(vals[1]), s))
                else: out += [(some(v), s2) for v, s2 in self.call_closure(fn, s, raw[1], [])]
            return out
        if path in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call",
                    "core::ops::async_function::AsyncFnMut::async_call_mut", "core::ops::async_function::AsyncFn::async_call",
                    "core::ops::async_function::AsyncFnOnce::async_call_once"):
            args = vals[1]
            al = list(args.a[3]) if args.k == "agg" else [args]
            return self.call_closure(fn, st, raw[0], al)
        if path == "core::mem::drop": return [(UNIT, st)]
        if path in ("core::mem::take", "core::mem::replace"):
            old = vals[0]
            new = vals[1] if n == "replace" else mk("coll", None, frozenset())
            s = State(dict(st.env), st.facts)
            if raw[0].k == "mref": self.write_at(fn, s, raw[0].a[0], list(raw[0].a[1]), new, line)
            return [(old, s)]
        if path == "core::mem::swap":
            s = State(dict(st.env), st.facts)
            if raw[0].k == "mref" and raw[1].k == "mref":
                self.write_at(fn, s, raw[0].a[0], list(raw[0].a[1]), vals[1], line)
                self.write_at(fn, s, raw[1].a[0], list(raw[1].a[1]), vals[0], line)
            return [(UNIT, s)]
        if path == "core::convert::From::from" and len(ta) >= 2 and ta[0] == ta[1]: return [(vals[0], st)]
        if path == "core::convert::Into::into" and len(ta) >= 2 and ta[0] == ta[1]: return [(vals[0], st)]
        if path == "core::convert::From::from" and res not in self.P.fns and ta and re.match(r"^(alloc::rcs|alloc::boxed|alloc::vec|alloc::sync)", ta[0]):
            return [(vals[0], st)]
        if self.ctx.tokens and n == "extend" and path.startswith("core::iter::traits::collect::Extend"):
            r = self.token_call(fn, bb, st, path, res, ta, raw, vals, line, n)
            if r is not None: return r
        if path.startswith("core::iter::traits::") or path.startswith("core::iter::"):
            return self.itermodel(fn, bb, st, path, n, res, ta, raw, vals, line)
        if path == "futures_util::future::join_all::join_all":
            return self.itermodel(fn, bb, st, path, "join_all", res, ta, raw, vals, line)
        if path == "futures_util::stream::stream::StreamExt::next":
            outs = []
            for o, s in self.next_(fn, st, raw[0], line):
                if o is NONE: outs.append((o, s)); continue
                for v, s2 in self.poll(fn, s, o.a[3][0]): outs.append((some(v), s2))
            return outs
        # collections
        if n == "box_assume_init_into_vec_unsafe":
            arr = next((x for x in subs(self.strip_mref(fn, st.env, vals[0])) if x.k == "agg" and x.a[0] == "arr"), None)
            if arr is not None:
                if not self.ctx.tokens: return [(mk("coll", None, frozenset(arr.a[3])), st)]
                t, s = self.alloc(fn, bb, st)
                if arr.a[3]: s.facts = s.facts | {(mk("call", "is_empty", (t,)), False)}
                self.before = st.facts
                for x in arr.a[3]: self.ctx.on_token(self, s, fn, "seed", t, x, line)
                return [(t, s)]
        if self.ctx.tokens:
            r = self.token_call(fn, bb, st, path, res, ta, raw, vals, line, n)
            if r is not None: return r
        if NEWCOLL.match(path) and (COLLTY.search(path) or (ta and COLLTY.search(ta[0].split("<")[0]))):
            return [(mk("coll", None, frozenset()), st)]
        if path == "core::default::Default::default" and res not in self.P.fns:
            if ta and COLLTY.search(ta[0].split("<")[0]): return [(mk("coll", None, frozenset()), st)]
            if ta and ta[0] == "bool": return [(FALSE, st)]
            if ta and ta[0].startswith(OPT): return [(NONE, st)]
            return [(mk("call", "default", (mk("named", ta[0] if ta else ""),)), st)]
        if len(vals) == 2 and (path.startswith("core::ops::index::Index") or path in ("[T]::get", "alloc::vec::Vec::get", "[T]::get_mut")):
            v = self.index(self.strip_mref(fn, st.env, vals[0]), self.strip_mref(fn, st.env, vals[1]))
            if v.k == "elem": return [(v if n in ("index", "index_mut") else some(v), st)]
        is_coll = COLLTY.search(path) or path.startswith("nonempty::NonEmpty")
        if n == "entry" and is_coll and len(raw) == 2 and raw[0].k == "mref" and vals[0].k == "coll" and not self.P.fns.get(res):
            r = mk("call", path, tuple(self.strip_mref(fn, st.env, x) for x in vals))
            self.entries[(fn.path, r)] = raw[0], vals[1]
            return [(r, st)]
        if n in ("or_insert", "or_insert_with", "or_default") and "Entry::" in path and (fn.path, vals[0]) in self.entries:
            at, key = self.entries[(fn.path, vals[0])]
            outs = []
            for v, s in ([(vals[1], State(dict(st.env), st.facts))] if n == "or_insert" else [(mk("named", "default"), State(dict(st.env), st.facts))] if n == "or_default"
                         else self.call_closure(fn, st, raw[1], [])):
                item = self.ctx.on_store(self, s.facts, self.strip_mref(fn, s.env, mk("agg", "tup", "", "", (key, v))))
                s = State(dict(s.env), s.facts)
                self.write_at_raw(fn, s, at.a[0], list(at.a[1]), self.add_elem(self._at(fn, s.env, at.a[0], list(at.a[1])), item))
                outs.append((mk("call", path, tuple(self.strip_mref(fn, s.env, x) for x in vals)), s))
            return outs
        if is_coll and raw and not self.P.fns.get(res):
            if n in PUSH and len(raw) >= 2:
                item = vals[1] if len(vals) == 2 else mk("agg", "tup", "", "", (vals[1], vals[2]))
                item = self.strip_mref(fn, st.env, item)
                item = self.ctx.on_store(self, st.facts, item)
                s = State(dict(st.env), st.facts)
                cur = vals[0]
                if raw[0].k == "mref":
                    self.write_at_raw(fn, s, raw[0].a[0], list(raw[0].a[1]), self.add_elem(cur, item))
                if n in ("push", "push_back", "push_front"): return [(UNIT, s)]
                if "HashSet" in path or "BTreeSet" in path:
                    return [(mk("call", "set_insert", (self.strip_mref(fn, st.env, cur) if cur.k != "coll" else mk("named", "coll"), item)), s)]
                return [(mk("call", "map_insert", (self.strip_mref(fn, st.env, cur) if cur.k != "coll" else mk("named", "coll"), item)), s)]
            if n in EXT and len(raw) >= 2:
                s = State(dict(st.env), st.facts)
                res_ = []
                cur = vals[0]
                acc = cur
                facts = st.facts
                for r in self.consume(fn, st, raw[1], line, lambda e, s_: [(e, s_)]):
                    if r[0] is not None:
                        item = self.ctx.on_store(self, r[1].facts, self.strip_mref(fn, st.env, r[0]))
                        acc = self.add_elem(acc, item)
                if raw[0].k == "mref":
                    self.write_at_raw(fn, s, raw[0].a[0], list(raw[0].a[1]), acc)
                if n == "append" and raw[1].k == "mref":
                    self.write_at_raw(fn, s, raw[1].a[0], list(raw[1].a[1]), mk("coll", None, frozenset()))
                return [(UNIT, s)]
            cur = vals[0]
            if n in ("pop", "pop_front", "pop_back", "last", "first", "front", "back") and len(vals) == 1:
                if "NonEmpty" in path and n in ("first", "last"):
                    return [(e, s) for e, s in self.elems(fn, st, cur)]
                outs = [(NONE, State(dict(st.env), st.facts))]
                for e, s in self.elems(fn, State(dict(st.env), st.facts), cur):
                    if n.startswith("pop") and e.k == "elem": s = State(s.env, self.kill(s.facts, e))
                    outs.append((some(e), s))
                return outs
            if n in ("get", "get_mut", "remove") and len(vals) == 2 and cur.k == "coll":
                outs = [(NONE, State(dict(st.env), st.facts))]
                for e, s in self.elems(fn, State(dict(st.env), st.facts), cur):
                    if "Map" in path: e = self.field(e, "tuple", "1")
                    outs.append((some(e), s))
                return outs
            if n in ("is_empty",): return [(mk("call", "is_empty", (self.strip_mref(fn, st.env, cur),)), st)]
            if n in ("clear",):
                s = State(dict(st.env), st.facts)
                if raw[0].k == "mref": self.write_at_raw(fn, s, raw[0].a[0], list(raw[0].a[1]), mk("coll", None, frozenset()))
                return [(UNIT, s)]
            if n in ("contains", "contains_key"):
                return [(mk("call", n, tuple(self.strip_mref(fn, st.env, x) for x in vals[:2])), st)]
            if n in ("retain", "sort_by_key", "sort_by", "sort"):
                return None
        return None

    def changed(self, facts, tok, grow=True):
        """What is still known after the collection changed."""
        def stale(p, t):
            for x in subs(p):
                if x.k == "call" and x.a[1] and x.a[1][0] is tok and x.a[0].rsplit("::", 1)[-1] in (
                        "contains", "contains_key", "is_empty", "get", "get_mut", "len", "remove"):
                    if grow and p is x and t and x.a[0].rsplit("::", 1)[-1].startswith("contains"): continue
                    return True
            return False
        return frozenset((p, t) for p, t in facts if not stale(p, t))

    def token_call(self, fn, bb, st, path, res, ta, raw, vals, line, n):
        """Collections as allocation-site tokens: their content is not tracked, mutations only invalidate facts."""
        if (NEWCOLL.match(path) and (COLLTY.search(path) or (ta and COLLTY.search(ta[0].split("<")[0])))) or (
                path == "core::default::Default::default" and res not in self.P.fns and ta and COLLTY.search(ta[0].split("<")[0])):
            return [self.alloc(fn, bb, st)]
        if ("Entry::" in path) and vals and raw:
            ent = self.strip_mref(fn, st.env, vals[0])
            if ent.k == "agg" and ent.a[2] in ("Occupied", "Vacant"): ent = ent.a[3][0]
        else: ent = None
        if ent is not None and ent.k == "call" and ent.a[0] == "entry":
            tok, key = ent.a[1]
            if "OccupiedEntry::" in path or "VacantEntry::" in path:
                slot = mk("fld", mk("call", "get", (tok, key)), OPT, "0", "Some")
                if n in ("get", "get_mut", "into_mut"): return [(slot, st)]
                if n == "key": return [(key, st)]
                if n == "insert" and len(vals) == 2:
                    has_ = mk("call", "contains_key", (tok, key))
                    s2 = State(dict(st.env), self.changed(st.facts, tok) | {(has_, True)})
                    self.before = st.facts
                    self.ctx.on_token(self, s2, fn, "ins", tok, mk("agg", "tup", "", "", (key, self.strip_mref(fn, s2.env, vals[1]))), line)
                    return [(slot, s2)]
                if n in ("remove", "remove_entry"):
                    has_ = mk("call", "contains_key", (tok, key))
                    s2 = State(dict(st.env), self.changed(st.facts, tok) | {(has_, False)})
                    self.before = st.facts
                    self.ctx.on_token(self, s2, fn, "remove", tok, key, line)
                    return [(slot if n == "remove" else mk("agg", "tup", "", "", (key, slot)), s2)]
            slot = mk("fld", mk("call", "get", (tok, key)), OPT, "0", "Some")
            has_ = mk("call", "contains_key", (tok, key))
            out = []
            if n == "key": return [(key, st)]
            for f, have in self.cases(st.facts, has_):
                s = State(dict(st.env), f)
                if n == "and_modify":
                    if not have: out.append((vals[0], s)); continue
                    for _, s2 in self.call_closure(fn, s, raw[1], [slot]): out.append((vals[0], s2))
                elif n in ("or_insert", "or_insert_with", "or_insert_with_key", "or_default"):
                    if have: out.append((slot, s)); continue
                    if n == "or_insert": new = [(vals[1], s)]
                    elif n == "or_default": new = [(mk("named", "default"), s)]
                    else: new = self.call_closure(fn, s, raw[1], [key] if n.endswith("key") else [])
                    for v, s2 in new:
                        self.before = s2.facts
                        s2 = State(dict(s2.env), self.changed(s2.facts, tok) | {(has_, True)})
                        self.ctx.on_token(self, s2, fn, "ins", tok, mk("agg", "tup", "", "", (key, self.strip_mref(fn, s2.env, v))), line)
                        out.append((slot, s2))
                else: return None
            return out
        ext = n == "extend" and path.startswith("core::iter::traits::collect::Extend") and raw and self.strip_mref(fn, st.env, vals[0]).k == "token"
        if not ext and not ((COLLTY.search(path) or path.startswith("nonempty::NonEmpty")) and raw and not self.P.fns.get(res)): return None
        if n == "entry" and len(vals) == 2:
            sv = tuple(self.strip_mref(fn, st.env, v) for v in vals)
            e = mk("call", "entry", sv)
            adt = "std::collections::hash_map::Entry" if "hash" in path else "alloc::collections::btree_map::Entry"
            out = []
            for f, have in self.cases(st.facts, mk("call", "contains_key", sv)):
                out.append((mk("agg", "adt", adt, "Occupied" if have else "Vacant", (e,)), State(dict(st.env), f)))
            return out
        cur = self.strip_mref(fn, st.env, vals[0])
        sv = tuple(self.strip_mref(fn, st.env, v) for v in vals)
        grow = n in PUSH or n in EXT
        shrink = n in ("remove", "clear", "retain", "drain", "take", "remove_entry", "truncate", "pop", "pop_front", "pop_back", "swap_remove", "split_off")
        f = st.facts
        if grow or shrink:
            f = self.changed(f, cur, grow)
        if n in ("pop", "pop_front", "pop_back"):
            e = self.elem(cur)
            it = mk("iterating", e)
            if (it, True) in st.facts:
                self.ctx.on_elem_end(self, e, st.facts, fn, line)
                f = f - {(it, True)}
            outs = []
            if (mk("call", "is_empty", (cur,)), False) not in st.facts:
                outs.append((NONE, State(dict(st.env), f | {(mk("exhausted", cur), True)})))
            outs.append((some(e), State(dict(st.env), self.kill(f, e) | {(it, True)})))
            return outs
        sh = State(dict(st.env), f)
        self.before = st.facts   # what held before the change, for on_token
        if n in PUSH and len(sv) >= 2:
            self.ctx.on_token(self, sh, fn, "ins", cur, sv[1] if len(sv) == 2 else mk("agg", "tup", "", "", sv[1:3]), line)
            if n.startswith("push"): sh.facts = sh.facts | {(mk("call", "is_empty", (cur,)), False)}
        elif n in EXT:
            src = self.val(fn, st.env, vals[1])
            base = src
            while base.k == "call" and base.a[0].startswith("core::iter") and base.a[0].rsplit("::", 1)[-1] in ("map", "filter", "filter_map", "inspect", "flat_map") and base.a[1]: base = base.a[1][0]
            ends = []
            for e, s_ in self.elems(fn, State(dict(st.env), f), src):
                s2 = State(dict(s_.env), s_.facts | {(mk("iterating", x), True) for x, _ in self.elems(fn, State(dict(st.env), f), base)})
                self.ctx.on_token(self, s2, fn, "ins", cur, self.strip_mref(fn, st.env, e), line)
                ends.append(s2.facts)
            for x, _ in self.elems(fn, State(dict(st.env), f), base) if ends and base is not src else []:
                for f2 in ends: self.ctx.on_elem_end(self, x, f2, fn, line)
            sh.facts = sh.facts | {self.exh(fn, st, base) and (self.exh(fn, st, base), True)}
        elif n in ("clear",): self.ctx.on_token(self, sh, fn, "clear", cur, None, line)
        elif shrink: self.ctx.on_token(self, sh, fn, n, cur, sv[1] if len(sv) > 1 else None, line)
        f = sh.facts
        if n in ("contains", "contains_key"): return [(mk("call", n, sv), st)]
        if n == "is_empty": return [(mk("call", n, sv), st)]
        if n in PUSH and len(sv) >= 2:
            item = sv[1] if len(sv) == 2 else mk("agg", "tup", "", "", sv[1:3])
            if n.startswith("push"): return [(UNIT, State(dict(st.env), f))]
            return [(mk("call", "set_insert" if "Set" in path else "map_insert", (cur, item)), State(dict(st.env), f))]
        if n in EXT or n in ("clear", "retain", "truncate"): return [(UNIT, State(dict(st.env), f))]
        if n in ("get", "get_mut", "remove", "get_key_value") and len(sv) == 2 and not ("Vec" in path and n == "remove"):
            v = mk("call", n.replace("_mut", ""), sv)
            return [(v, State(dict(st.env), f))]
        return None

    def add_elem(self, cur, item):
        if cur.k == "phi" and cur.a[0]:
            r = None
            for x in sorted(cur.a[0], key=lambda t: t.n):
                x = self.add_elem(x, item)
                r = x if r is None else self.join(r, x)
            return r
        if item.d > 16: item = mk("deepelem")
        if cur.k == "coll":
            if item in cur.a[1]: return cur
            if len(cur.a[1]) > 24: return cur
            return mk("coll", cur.a[0], cur.a[1] | {item})
        return mk("coll", cur, frozenset({item}))

    def optres(self, fn, bb, st, path, n, raw, vals, line):
        isopt = path.startswith(OPT)
        adt = OPT if isopt else RES
        good, bad = ("Some", "None") if isopt else ("Ok", "Err")
        v = vals[0]
        if n == "is_some" or n == "is_ok": return [(mk_is(v, adt, good), st)]
        if n == "is_none" or n == "is_err": return [(mk_is(v, adt, bad), st)]
        if n in ("insert", "replace", "take", "get_or_insert_with", "get_or_insert") and isopt:
            s = State(dict(st.env), st.facts)
            if n == "take":
                if raw[0].k == "mref": self.write_at(fn, s, raw[0].a[0], list(raw[0].a[1]), NONE, line)
                return [(v, s)]
            if n in ("insert", "replace"):
                if raw[0].k == "mref": self.write_at(fn, s, raw[0].a[0], list(raw[0].a[1]), some(vals[1]), line)
                return [(vals[1] if n == "insert" else v, s)]
            return None
        known = {"unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "map", "map_err", "and_then", "or_else",
                 "ok_or", "ok_or_else", "ok", "err", "is_some_and", "is_none_or", "is_ok_and", "is_err_and", "map_or", "map_or_else",
                 "filter", "and", "or", "inspect", "inspect_err", "unwrap_err", "expect_err", "unwrap_unchecked", "flatten", "transpose", "zip"}
        if n not in known: return None
        out = []
        for f, name in self.split(st.facts, v, adt):
            s = State(dict(st.env), f)
            g = name == good
            x = self.payload(v, adt, name) if not (isopt and not g) else None
            if n in ("unwrap", "expect", "unwrap_unchecked"):
                if g: out.append((x, s))
                else: self.ctx.on_diverge(self, fn, line, s)
            elif n in ("unwrap_err", "expect_err"):
                if not g: out.append((x, s))
            elif n == "unwrap_or": out.append((x if g else vals[1], s))
            elif n == "unwrap_or_default": out.append((x if g else mk("call", "default", ()), s))
            elif n == "unwrap_or_else":
                if g: out.append((x, s))
                else: out += self.call_closure(fn, s, raw[1], [] if isopt else [x])
            elif n == "map":
                if g: out += [(some(r) if isopt else ok(r), s2) for r, s2 in self.call_closure(fn, s, raw[1], [x])]
                else: out.append((NONE if isopt else err(x), s))
            elif n == "map_err":
                if g: out.append((ok(x), s))
                else: out += [(err(r), s2) for r, s2 in self.call_closure(fn, s, raw[1], [x])]
            elif n == "and_then":
                if g: out += self.call_closure(fn, s, raw[1], [x])
                else: out.append((NONE if isopt else err(x), s))
            elif n == "or_else":
                if g: out.append((v if v.k == "agg" else (some(x) if isopt else ok(x)), s))
                else: out += self.call_closure(fn, s, raw[1], [] if isopt else [x])
            elif n == "ok_or": out.append((ok(x) if g else err(vals[1]), s))
            elif n == "ok_or_else":
                if g: out.append((ok(x), s))
                else: out += [(err(r), s2) for r, s2 in self.call_closure(fn, s, raw[1], [])]
            elif n == "ok": out.append((some(x) if g else NONE, s))
            elif n == "err": out.append((NONE if g else some(x), s))
            elif n in ("is_some_and", "is_ok_and"):
                if g: out += self.call_closure(fn, s, raw[1], [x])
                else: out.append((FALSE, s))
            elif n in ("is_none_or",):
                if g: out += self.call_closure(fn, s, raw[1], [x])
                else: out.append((TRUE, s))
            elif n == "is_err_and":
                if not g: out += self.call_closure(fn, s, raw[1], [x])
                else: out.append((FALSE, s))
            elif n == "map_or":
                if g: out += self.call_closure(fn, s, raw[2], [x])
                else: out.append((vals[1], s))
            elif n == "map_or_else":
                if g: out += self.call_closure(fn, s, raw[2], [x])
                else: out += self.call_closure(fn, s, raw[1], [] if isopt else [x])
            elif n == "filter":
                if not g: out.append((NONE, s))
                else:
                    for r, s2 in self.call_closure(fn, s, raw[1], [x]):
                        for f2, val in self.cases(s2.facts, r):
                            out.append((some(x) if val else NONE, State(dict(s2.env), f2)))
            elif n == "and": out.append((vals[1] if g else (NONE if isopt else err(x)), s))
            elif n == "or": out.append((v if g else vals[1], s))
            elif n in ("inspect", "inspect_err"):
                if g == (n == "inspect"):
                    out += [(v, s2) for _, s2 in self.call_closure(fn, s, raw[1], [x])]
                else: out.append((v, s))
            elif n == "flatten": out.append((x if g else (NONE if isopt else err(x)), s))
            elif n == "zip":
                if not g: out.append((NONE, s))
                else:
                    for f2, n2 in self.split(s.facts, vals[1], OPT):
                        out.append((some(mk("agg", "tup", "", "", (x, self.payload(vals[1], OPT, "Some")))) if n2 == "Some" else NONE, State(dict(s.env), f2)))
            elif n == "transpose":
                if isopt:
                    if not g: out.append((ok(NONE), s))
                    else:
                        for f2, n2 in self.split(s.facts, x, RES):
                            y = self.payload(x, RES, n2)
                            out.append((ok(some(y)) if n2 == "Ok" else err(y), State(dict(s.env), f2)))
                else:
                    if not g: out.append((some(err(x)), s))
                    else:
                        for f2, n2 in self.split(s.facts, x, OPT):
                            out.append((some(ok(self.payload(x, OPT, "Some"))) if n2 == "Some" else NONE, State(dict(s.env), f2)))
        return out

    def itermodel(self, fn, bb, st, path, n, res, ta, raw, vals, line):
        if res in self.P.fns and not self.opaque_impl(self.P.fns[res]) and n not in ("into_iter",):
            return None
        if n == "next": return self.next_(fn, st, raw[0], line)
        if n in ("map", "filter", "filter_map", "flat_map", "flatten", "zip", "chain", "once", "enumerate", "take", "skip",
                 "step_by", "take_while", "skip_while", "inspect", "empty", "rev", "map_while"):
            # lazy: references captured by closures stay symbolic
            return [(mk("call", path, tuple(v if v.k == "agg" else self.val(fn, st.env, v) for v in raw)), st)]
        fin = []
        it = raw[0] if raw else None

        def done(r):
            # end the representative iteration
            v, s, e = r
            f = s.facts
            self.adaptor = n
            self.ctx.on_elem_end(self, e, f, fn, line)
            self.adaptor = None
            return State(s.env, (f - {(mk("iterating", e), True)}) | ({(ex, True)} if n not in self.ctx.looks else set()))

        def left(s, e):
            # the search stopped at this element; nothing more happens to it here
            return State(s.env, s.facts - {(mk("iterating", e), True)})
        ex = None
        if raw and n not in ("once", "empty"):
            src = raw[1] if n == "extend" and len(raw) > 1 else raw[0]
            ex = self.exh(fn, st, src)
        if n in ("all", "any", "try_for_each", "for_each", "find", "position", "find_map", "max_by_key", "min_by_key", "max_by", "partition"):
            clo = raw[1] if len(raw) > 1 else None
            if n in ("max_by", "max_by_key", "min_by_key", "partition"): return None
            rs = self.consume(fn, st, it, line, lambda e, s: self.call_closure(fn, s, clo, [e]))
            for r in rs:
                if r[0] is None:
                    z = {"all": TRUE, "any": FALSE, "try_for_each": ok(UNIT), "for_each": UNIT, "find": NONE, "position": NONE, "find_map": NONE}[n]
                    fin.append((z, r[1])); continue
                v, s, e = r
                if n in ("all", "any", "find", "position"):
                    for f, val in self.cases(s.facts, self.val(fn, s.env, v)):
                        s2 = State(dict(s.env), f)
                        if n == "all":
                            fin.append((TRUE, done((v, s2, e))) if val else (FALSE, left(s2, e)))
                        elif n == "any":
                            fin.append((TRUE, left(s2, e)) if val else (FALSE, done((v, s2, e))))
                        elif n == "find":
                            fin.append((some(e), s2) if val else (NONE, done((v, s2, e))))
                        else:
                            fin.append((some(mk("idx", e)), s2) if val else (NONE, done((v, s2, e))))
                elif n == "try_for_each":
                    rt = ta[-1] if ta else ""
                    for f, name in self.split(s.facts, v, RES if not rt.startswith(OPT) else OPT):
                        s2 = State(dict(s.env), f)
                        if name in ("Ok", "Some"): fin.append((ok(UNIT), done((v, s2, e))))
                        elif name == "None": fin.append((NONE, s2))
                        else: fin.append((err(self.payload(v, RES, "Err")), s2))
                elif n == "for_each":
                    fin.append((UNIT, done(r)))
                elif n == "find_map":
                    for f, name in self.split(s.facts, v, OPT):
                        s2 = State(dict(s.env), f)
                        fin.append((v, s2) if name == "Some" else (NONE, done((v, s2, e))))
            return fin
        if n in ("collect", "from_iter", "join_all", "extend"):
            out_t = ta[-1] if n == "collect" else (ta[0] if ta else "")
            if n == "extend":
                s = State(dict(st.env), st.facts)
                acc = vals[0]
                for r in self.consume(fn, st, raw[1], line, lambda e, s_: [(e, s_)]):
                    if r[0] is not None:
                        done(r)
                        acc = self.add_elem(acc, self.ctx.on_store(self, r[1].facts, self.strip_mref(fn, st.env, r[0])))
                if raw[0].k == "mref": self.write_at_raw(fn, s, raw[0].a[0], list(raw[0].a[1]), acc)
                s.facts = s.facts | {(ex, True)}
                return [(UNIT, s)]
            if it is None: return None
            wrap = RES if out_t.startswith(RES) else (OPT if out_t.startswith(OPT) else None)
            elems = []
            src = self.strip_mref(fn, st.env, vals[0])
            direct = src.k in ("fld", "param", "named", "elem", "upd", "key", "val") or (src.k == "call" and not src.a[0].startswith("core::iter"))
            if direct and not wrap:
                return [(src, st)]
            if src.k == "coll" and not wrap: return [(src, st)]
            fail = []
            facts_ok = None
            for r in self.consume(fn, st, it, line, (lambda e, s: self.poll(fn, s, e)) if n == "join_all" else (lambda e, s: [(e, s)])):
                if r[0] is None: continue
                v, s, e = r
                if wrap:
                    for f, name in self.split(s.facts, v, wrap):
                        s2 = State(dict(s.env), f)
                        if name in ("Ok", "Some"):
                            x = self.payload(v, wrap, name)
                            elems.append((self.ctx.on_store(self, f, self.strip_mref(fn, s.env, x)), State(s.env, f)))
                            facts_ok = done((v, s2, e)).facts if facts_ok is None else facts_ok & done((v, s2, e)).facts
                        elif name == "Err": fail.append((err(self.payload(v, RES, "Err")), s2))
                        else: fail.append((NONE, s2))
                else:
                    elems.append((self.ctx.on_store(self, s.facts, self.strip_mref(fn, s.env, v)), s))
                    d = done((v, s, e)).facts
                    facts_ok = d if facts_ok is None else facts_ok & d
            els = frozenset(x if x.d <= 16 else mk("deepelem") for x, _ in elems)
            coll = mk("coll", None, els)
            facts0 = st.facts if facts_ok is None else st.facts | frozenset(x for x in facts_ok if self.ctx.keep(x[0]))
            s0 = State(dict(st.env), facts0)
            good = coll if not wrap else (ok(coll) if wrap == RES else some(coll))
            return [(good, s0)] + fail
        if n in ("fold", "try_fold"):
            clo = raw[2]
            outs = [(vals[1] if n == "fold" else None, State(dict(st.env), st.facts))]
            acc0 = self.strip_mref(fn, st.env, vals[1])
            if n == "try_fold":
                rt = ta[-1] if ta else ""
                w = OPT if any(x.startswith(OPT) for x in ta[-1:]) else RES
                outs = [((some if w == OPT else ok)(acc0), outs[0][1])]
            for r in self.consume(fn, st, it, line, lambda e, s: self.call_closure(fn, s, clo, [acc0, e])):
                if r[0] is None: continue
                v, s, e = r
                if n == "fold": outs.append((self.strip_mref(fn, s.env, v), done(r)))
                else:
                    for f, name in self.split(s.facts, v, w):
                        s2 = State(dict(s.env), f)
                        if name in ("Ok", "Some"): outs.append(((some if w == OPT else ok)(self.payload(v, w, name)), done((v, s2, e))))
                        elif name == "None": outs.append((NONE, s2))
                        else: outs.append((err(self.payload(v, RES, "Err")), s2))
            return outs
        if n in ("count", "last", "nth", "max", "min", "sum", "product"):
            for r in self.consume(fn, st, it, line, lambda e, s: [(e, s)]):
                if r[0] is None: continue
            if n in ("last", "nth", "max", "min"):
                o = [(NONE, State(dict(st.env), st.facts))]
                for e, s in self.elems(fn, State(dict(st.env), st.facts), it): o.append((some(e), s))
                return o
            return [(mk("call", n, (self.strip_mref(fn, st.env, vals[0]),)), st)]
        return None

    def extern(self, fn, bb, st, path, res, raw, vals, line, ta):
        """Unknown function: pure result term; closures among the arguments may run (0 or 1 representative time)."""
        sts = [st]
        for i, v in enumerate(vals):
            if v.k == "agg" and v.a[0] == "clo":
                new = [State(dict(st.env), st.facts)]
                body = self.P.fns.get(v.a[1])
                if body is None: continue
                args = []
                others = [x for j, x in enumerate(vals) if j != i]
                for j in range(max(0, body.argc - 1)):
                    src = others[0] if others else mk("named", path)
                    args.append(self.elem(self.strip_mref(fn, st.env, src)))
                for s in sts:
                    for r, s2 in self.call_closure(fn, State(dict(s.env), s.facts), raw[i], args):
                        new.append(s2)
                sts = new
            elif v.k == "agg" and v.a[0] == "cor" and (path.startswith("futures") or path.startswith("future_form") or path.startswith("tokio")):
                new = [State(dict(st.env), st.facts)]
                for s in sts:
                    for r, s2 in self.poll(fn, State(dict(s.env), s.facts), raw[i]): new.append(s2)
                sts = new
        name = res if res in self.P.fns else path
        ret = mk("call", name, tuple(self.strip_mref(fn, st.env, v) for v in vals))
        if ret.d > 24: ret = mk("deep", fn.path, bb)
        if self.ctx.mutates and name in self.P.fns:
            b_ = self.P.fns[name]
            for i, v in enumerate(raw[:b_.argc]):
                if v.k == "mref" and b_.locals[i + 1].startswith("&mut"):
                    for s in sts:
                        sv = tuple(self.strip_mref(fn, s.env, x) for x in vals)
                        new = self.ctx.mut_term(name, self.val(fn, s.env, v), sv[:i] + sv[i + 1:])
                        if new.d > 24: new = mk("deep", fn.path, bb)
                        self.write_at_raw(fn, s, v.a[0], list(v.a[1]), new)
        return [(ret, s) for s in sts]

    # ---------- entry
    def entry(self, path, facts=frozenset(), args=None):
        fn = self.P.fns[path]
        if args is None:
            args = [mk("param", path, i, fn.names.get(i + 1, f"arg{i}"), fn.locals[i + 1]) for i in range(fn.argc)]
            if fn.is_async and not any(fn.names.get(i + 1) for i in range(fn.argc)):
                pass
        outs = self.run(fn, args, facts)
        res = []
        for ret, f, o in outs:
            if ret.k == "agg" and ret.a[0] == "cor":
                st = State({}, f)
                for v, s in self.poll(fn, st, ret):
                    res.append((v, s.facts, o))
            else:
                res.append((ret, f, o))
        return res

    def entry_mut(self, path, facts=frozenset()):
        """Like entry, but returns [(value, facts, final values of the arguments)]; mutable arguments are places of the caller."""
        fn = self.P.fns[path]
        args = [mk("param", path, i, fn.names.get(i + 1, f"arg{i}"), fn.locals[i + 1]) for i in range(fn.argc)]
        base = 1000000
        env = {base + i: a for i, a in enumerate(args)}
        raw = [mk("mref", base + i, ()) if fn.locals[i + 1].startswith("&mut") else a for i, a in enumerate(args)]
        res = []
        for ret, s in self.inline(fn, State(env, facts), fn, raw):
            if ret.k == "agg" and ret.a[0] == "cor": outs = self.poll(fn, s, ret)
            else: outs = [(ret, s)]
            for v, s2 in outs:
                res.append((v, s2.facts, [s2.env.get(base + i) for i in range(fn.argc)]))
        return res
