"""C08: secrets and plaintext never reach logs, debug or display output, or error messages."""
import re, os, collections
from ir import split_generic, strip_refs
from kctx import *

KY = "keyhive_crypto::"
OURS = ("keyhive", "beekem")
KEYS = {KY + "symmetric_key::SymmetricKey": "0", KY + "share_key::ShareSecretKey": "0"}
EXTKEY = re.compile(r"(x25519_dalek::.*(StaticSecret|SharedSecret|EphemeralSecret)|ed25519_dalek::signing::SigningKey|ed25519_dalek::hazmat::ExpandedSecretKey)$")
SINK = re.compile(r"^core::fmt::rt::Argument::new_(display|debug|lower|upper|pointer|octal|binary)|^core::fmt::Formatter::(debug_\w+|write_str|pad\w*)|^core::fmt::builders::|^core::fmt::(Display|Debug|LowerHex|UpperHex|Binary|Octal|LowerExp|Pointer)::fmt|^core::fmt::Write::|^derive_more::fmt::|^tracing(_core)?::.*::(debug|display|value_set\w*|record\w*)$|^core::panicking::panic_(display|str|any)|^std::panic::panic_any|^std::io::.*::write\w*$|^hex::")
CLEAN = re.compile(r"^blake3::(?!Hasher::finalize_xof$|derive_key$)|::(len|is_empty|eq|ne|cmp|partial_cmp|lt|le|gt|ge|hash|verify\w*|sign|try_sign|capacity|contains|contains_key|encrypt)$|x25519_dalek::.*PublicKey|ed25519_dalek::.*(VerifyingKey|Signature)")
ENC = re.compile(r"::(encrypt_in_place\w*|encrypt_inout\w*|apply_keystream\w*)$")
DEC = re.compile(r"::(decrypt_in_place\w*|decrypt_inout\w*)$")
DECR = re.compile(r"^aead::.*::decrypt$")
HEX = ("core::fmt::LowerHex::fmt", "core::fmt::UpperHex::fmt")
ERR = re.compile(r"^core::result::Result::(err|unwrap_err|expect_err|is_err_and|is_err|is_ok)$")
ONERR = re.compile(r"^core::result::Result::(map_err|or_else|unwrap_or_else|inspect_err)$")
PTR = ("alloc::", "core::", "std::", "futures", "nonempty", "hashbrown", "generic_array", "tracing", "async_lock", "indexmap", "typenum", "either")
GEN = re.compile(r"^[A-Z][A-Za-z0-9]?$|^impl |^<.* as .*>::")


def local(p): return p.startswith(OURS)


class Types:
    def __init__(self, P): self.P, self.memo, self.has = P, {}, {}

    def raw(self, t):
        """a value of the type can itself show bytes or content (types of our own are judged by their fields and their own formatting)"""
        if t not in self.memo:
            self.memo[t] = False
            self.memo[t] = self.raw_(t)
        return self.memo[t]

    def raw_(self, t):
        t = strip_refs(t.strip())
        if re.search(r"(closure|coroutine)#", t): return True
        if t.startswith("["): return self.raw(re.split(r"; ", t[1:-1])[0]) if t.endswith("]") else False
        if t.startswith("("): return any(self.raw(x) for x in split_generic("x<" + t[1:-1].rstrip(",") + ">")[1])
        if t in ("u8", "str", "alloc::string::String") or t.startswith("dyn ") or GEN.match(t): return True
        h, a = split_generic(t)
        if local(h) or h.endswith("PhantomData"): return False
        return any(self.raw(x) for x in a)

    def secret(self, t):
        """the type holds a key"""
        if t in self.has: return self.has[t]
        self.has[t] = False
        u = strip_refs(t.strip())
        if u.startswith("["): r = self.secret(re.split(r"; ", u[1:-1])[0]) if u.endswith("]") else False
        elif u.startswith("("): r = any(self.secret(x) for x in split_generic("x<" + u[1:-1].rstrip(",") + ">")[1])
        else:
            h, a = split_generic(u)
            if h.endswith("PhantomData"): r = False
            elif h in KEYS or EXTKEY.search(h): r = True
            elif local(h): r = any(self.secret(f[1]) for v in self.P.adts.get(h, {"variants": []})["variants"] for f in v[1])
            else: r = any(self.secret(x) for x in a)
        self.has[t] = r
        return r


class Flow:
    """the value-flow graph of the whole program: locals, fields of our types, captured variables, results"""

    def __init__(self, P, rep):
        self.P, self.T, self.rep = P, Types(P), rep
        self.edges, self.back = collections.defaultdict(set), collections.defaultdict(set)
        self.src, self.sinks, self.enc, self.dec, self.alias = {}, [], [], [], collections.defaultdict(set)
        self.ft = {}
        for p, a in P.adts.items():
            for v in a["variants"]:
                for n, t, _ in v[1]: self.ft[(p, n)] = t
        for f in P.fns.values(): self.fn(f)

    def ok(self, n):
        if n[0] == "l": return self.T.raw(self.P.fns[n[1]].locals[n[2]])
        if n[0] == "f" and n[1:] in self.ft: return self.T.raw(self.ft[n[1:]])
        return True

    def edge(self, a, b):
        if a is None or b is None or a == b or not self.ok(a) or not self.ok(b): return
        self.edges[a].add(b); self.back[b].add(a)

    def place(self, f, pl):
        n = ("l", f.path, pl[0])
        for e in pl[1:]:
            if e[0] == "v" and e[2] in ("Err", "Break"): return None   # errors are judged where they are made
            if e[0] == "f":
                h = f.strs[e[3]]
                if "closure#" in h or "coroutine#" in h: n = ("f", re.sub(r"^.*?(closure|coroutine)#", "", h), str(e[1]))
                elif local(split_generic(h)[0]): n = ("f", split_generic(h)[0], e[2])
        return n

    def op(self, f, o): return self.place(f, o[1]) if o[0] in ("c", "m") else None

    def fn(self, f):
        P, F = self.P, f.path
        self.edge(("l", F, 0), ("r", F))
        for bi, blk in enumerate(f.blocks):
            for s in blk[0]:
                if s[0] != "a": continue
                d, rv = self.place(f, s[1]), s[2]
                if rv[0] in ("use", "cast", "rep", "un"):
                    for o in rv[1:]:
                        if isinstance(o, list) and o and o[0] in ("c", "m"):
                            n = self.op(f, o)
                            self.edge(n, d)
                            if f.locals[s[1][0]].startswith("&mut "): self.edge(d, n); self.alias[d].add(n)
                elif rv[0] in ("ref", "addr"):
                    p = self.place(f, rv[2])
                    self.edge(p, d)
                    if rv[1] == 1: self.edge(d, p); self.alias[d].add(p)
                elif rv[0] == "agg":
                    path = f.strs[rv[2]] if isinstance(rv[2], int) else ""
                    for i, o in enumerate(rv[4]):
                        n = self.op(f, o)
                        if rv[1] in ("clo", "cor"): self.edge(n, ("f", path, str(i))); self.edge(("f", path, str(i)), n)
                        elif rv[1] == "adt" and local(path):
                            a = P.adts.get(path)
                            vs = [v for v in a["variants"] if v[0] == rv[3]] or a["variants"][:1] if a else []
                            if vs and i < len(vs[0][1]): self.edge(n, ("f", path, vs[0][1][i][0]))
                        elif not (path == "core::result::Result" and rv[3] == "Err"): self.edge(n, d)
                    if rv[1] in ("clo", "cor"): self.edge(("r", path), d)
            t = blk[1]
            if t[0] == "call": self.call(f, bi, t)

    def call(self, f, bi, t):
        P = self.P
        if re.search(r" as core::fmt::(Lower|Upper)Hex>::fmt$", f.path) and any(self.T.secret(f.locals[i]) for i in range(1, f.argc + 1)): return   # asked for in so many words, and judged where it is used
        c = P.callee(f, t[1])
        d = self.place(f, t[3])
        args = [self.op(f, o) for o in t[2]]
        tys = [f.locals[o[1][0]] if o[0] in ("c", "m") else "" for o in t[2]]
        path, res = (c[0], c[1]) if c else ("", "")
        g = P.fns.get(res) or P.fns.get(path)
        if ("new_lower_hex" in path or "new_upper_hex" in path or path in HEX) and any(self.T.secret(x) for x in tys + c[3]):
            self.rep.bad(f"hex:{f.path}", f"{f.path} ({f.file}:{t[5]}) formats a secret key in hex")
        if SINK.search(path):
            for a in args:
                if a: self.sinks.append((a, f, bi, t[5], path))
            if not g: return
        if g is not None:
            for i, a in enumerate(args):
                if i + 1 > g.argc or a is None: continue
                p = ("l", g.path, i + 1)
                self.edge(a, p)
                if g.locals[i + 1].startswith("&mut "): self.edge(p, a); self.alias[a].add(p); self.alias[p].add(a)
            self.edge(("r", g.path), d)
            return
        if ENC.search(path):
            if args and args[-1]: self.enc.append((args[-1], f, bi))
            for a in args: self.edge(a, d)
            return
        if DEC.search(path):
            b = args[3] if len(args) > 3 else args[-1]
            if b: self.dec.append(b); self.src.setdefault(b, f"decrypted in {f.path} ({f.file}:{t[5]})")
            return
        if DECR.search(path): self.src.setdefault(d, f"decrypted in {f.path} ({f.file}:{t[5]})"); return
        if any(EXTKEY.search(split_generic(strip_refs(x))[0]) for x in tys) and not re.search("public|verifying", path) and not CLEAN.search(path):
            self.src.setdefault(d, f"key bytes from {path} in {f.path} ({f.file}:{t[5]})")
        if re.search(r"(^|::)serialize\w*$", path) and any(self.T.secret(x) for x in tys): self.src.setdefault(d, f"serialised keys in {f.path} ({f.file}:{t[5]})")
        if CLEAN.search(path) or ERR.search(path): return
        clos = [m for x in tys for m in re.findall(r"(?:closure|coroutine)#([^,>\[\]]+)", x) if "{closure" in m]
        for i, a in enumerate(args):
            if a is None: continue
            self.edge(a, d)
            if f.locals[t[3][0]].startswith("&mut "): self.edge(d, a); self.alias[d].add(a)
            for j, b in enumerate(args):
                if b is not None and i != j and "&mut " in tys[j][:5]: self.edge(a, b)
            for x in clos if not ONERR.search(path) else ():
                h = P.fns.get(x)
                if h and x not in tys[i]:
                    for k in range(2, h.argc + 1): self.edge(a, ("l", x, k))

    def same(self, todo):
        """every name of a buffer"""
        seen = {}
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen[n] = 1
            todo += self.alias.get(n, ())
        return seen

    def reach(self, start, edges, stop=()):
        seen, todo = dict(start), list(start)
        while todo:
            n = todo.pop()
            for m in edges.get(n, ()):
                if m not in seen and m not in stop: seen[m] = n if isinstance(n, tuple) else seen[n]; todo.append(m)
        return seen


def run(rep, P, tier):
    """A taint analysis over the value flow of all crates. Sources: the bytes inside the key types, the bytes taken out of third-party
    key types, serialised keys, decrypted buffers and what is deserialised from them, and every value that flows into an encryption.
    Types of our own are judged by what their fields hold and by their own formatting. Sinks: formatting, tracing fields, output, error
    messages. Encryption, hashing and public keys end a flow."""
    for k, f in KEYS.items(): rep.need(k in P.adts and any(x[0] == f for x in P.adts[k]["variants"][0][1]), "anchor:key", f"{k} is not known", "key types")
    W = Flow(P, rep)
    # buffers that are encrypted in place: content before, ciphertext after
    E = W.same([n for n, f, b in W.enc])
    D = W.same(W.dec)
    rep.floor("encryptions", len(W.enc), 1, "in-place encryptions")
    rep.floor("decryptions", len(W.src), 1, "decrypted buffers and key bytes")
    src = dict(W.src)
    for k, f in KEYS.items(): src[("f", k, f)] = f"the bytes of {k}"
    # what is encrypted, as far as it is plain bytes
    generic = lambda n: n[0] == "l" and GEN.match(strip_refs(P.fns[n[1]].locals[n[2]])) is not None
    plain = W.reach({n: "x" for n in E}, {n: {m for m in ms if not generic(m)} for n, ms in W.back.items()})
    rep.floor("plain", len(plain), 12, "values that are encrypted")

    for n in plain:
        if n not in E and n[0] == "l": src.setdefault(n, "content that is encrypted")
    # what keys are made of
    made = W.reach({("f", k, f): "x" for k, f in KEYS.items()}, {n: {m for m in ms if m[0] != "f" and not generic(m)} for n, ms in W.back.items()}, {**E, **D})
    for n in made:
        if n not in E and n[0] == "l": src.setdefault(n, "bytes a key is made of")

    tainted = W.reach(src, W.edges, E)
    # what is taken from a buffer before it has been encrypted
    efns = {f.path for n, f, b in W.enc}
    while True:
        more = {f.path for f in P.fns.values() if f.path not in efns and enccalls(P, f, W, E, efns)}
        if not more: break
        efns |= more
    near = W.reach({n: "x" for n in E}, {n: {m for m in ms if m[0] == "l" and n[0] == "l" and m[1] == n[1]} for n, ms in W.edges.items()})
    for a, f, bi, line, path in W.sinks:
        if a in near and a not in tainted and f.path in efns:
            if before(f, bi, {b for n, g, b in W.enc if g is f} | enccalls(P, f, W, E, efns)): rep.bad(f"sink:{f.path}", f"{f.path} ({f.file}:{line}): content that is about to be encrypted reaches {path}")
        elif a in tainted: rep.bad(f"sink:{f.path}", f"{f.path} ({f.file}:{line}): {why(tainted, a)} reaches {path}")
        rep.ok("sinks", "nothing secret reaches what is formatted, traced or printed")
    rep.floor("sinks:n", len(W.sinks), 100, "values formatted, traced or printed")


def enccalls(P, f, W, E, efns):
    """the blocks that have a buffer encrypted"""
    out = set()
    for i, b in enumerate(f.blocks):
        if b[1][0] == "call" and any(W.op(f, o) in E for o in b[1][2]):
            c = P.callee(f, b[1][1])
            if c and (c[1] in efns or c[0] in efns): out.add(i)
    return out


def before(f, bi, stops):
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        if b == bi: return True
        if b not in stops: todo += f.succ(b)
    return False


def why(t, n):
    i, path = 0, []
    while isinstance(n, tuple) and i < 40:
        path.append(n); n = t[n]; i += 1
    return f"{n} (through " + " <- ".join(f"{x[1]}.{x[2]}" if len(x) > 2 else x[1] for x in path[:4]) + ")"
